{ "asm", ULIGHT_LANG_NASM },
{ "assembler", ULIGHT_LANG_NASM },
{ "assembly", ULIGHT_LANG_NASM },
{ "atom", ULIGHT_LANG_XML },
{ "bash", ULIGHT_LANG_BASH },
{ "c", ULIGHT_LANG_C },
{ "c++", ULIGHT_LANG_CPP },
{ "cc", ULIGHT_LANG_CPP },
{ "cjs", ULIGHT_LANG_JAVASCRIPT },
{ "cow", ULIGHT_LANG_COWEL },
{ "cowel", ULIGHT_LANG_COWEL },
{ "cplusplus", ULIGHT_LANG_CPP },
{ "cpp", ULIGHT_LANG_CPP },
{ "css", ULIGHT_LANG_CSS },
{ "cxx", ULIGHT_LANG_CPP },
{ "diff", ULIGHT_LANG_DIFF },
{ "ebnf", ULIGHT_LANG_EBNF },
{ "gyp", ULIGHT_LANG_PYTHON },
{ "h", ULIGHT_LANG_C },
{ "h++", ULIGHT_LANG_CPP },
{ "hpp", ULIGHT_LANG_CPP },
{ "htm", ULIGHT_LANG_HTML },
{ "html", ULIGHT_LANG_HTML },
{ "hxx", ULIGHT_LANG_CPP },
{ "java", ULIGHT_LANG_JAVA },
{ "javascript", ULIGHT_LANG_JAVASCRIPT },
{ "js", ULIGHT_LANG_JAVASCRIPT },
{ "json", ULIGHT_LANG_JSON },
{ "jsonc", ULIGHT_LANG_JSONC },
{ "jsx", ULIGHT_LANG_JAVASCRIPT },
{ "kotlin", ULIGHT_LANG_KOTLIN },
{ "kt", ULIGHT_LANG_KOTLIN },
{ "kts", ULIGHT_LANG_KOTLIN },
{ "latex", ULIGHT_LANG_LATEX },
{ "ll", ULIGHT_LANG_LLVM },
{ "llvm", ULIGHT_LANG_LLVM },
{ "lua", ULIGHT_LANG_LUA },
{ "markdown", ULIGHT_LANG_MARKDOWN },
{ "mathml", ULIGHT_LANG_XML },
{ "md", ULIGHT_LANG_MARKDOWN },
{ "mjs", ULIGHT_LANG_JAVASCRIPT },
{ "mml", ULIGHT_LANG_XML },
{ "nasm", ULIGHT_LANG_NASM },
{ "patch", ULIGHT_LANG_DIFF },
{ "plaintext", ULIGHT_LANG_TXT },
{ "plist", ULIGHT_LANG_XML },
{ "py", ULIGHT_LANG_PYTHON },
{ "python", ULIGHT_LANG_PYTHON },
{ "rs", ULIGHT_LANG_RUST },
{ "rss", ULIGHT_LANG_XML },
{ "rust", ULIGHT_LANG_RUST },
{ "sh", ULIGHT_LANG_BASH },
{ "svg", ULIGHT_LANG_XML },
{ "tex", ULIGHT_LANG_TEX },
{ "text", ULIGHT_LANG_TXT },
{ "ts", ULIGHT_LANG_TYPESCRIPT },
{ "tsx", ULIGHT_LANG_TYPESCRIPT },
{ "txt", ULIGHT_LANG_TXT },
{ "typescript", ULIGHT_LANG_TYPESCRIPT },
{ "x86asm", ULIGHT_LANG_NASM },
{ "xbj", ULIGHT_LANG_XML },
{ "xhtml", ULIGHT_LANG_XML },
{ "xml", ULIGHT_LANG_XML },
{ "xsd", ULIGHT_LANG_XML },
{ "xsl", ULIGHT_LANG_XML },
{ "yaml", ULIGHT_LANG_YAML },
{ "yml", ULIGHT_LANG_YAML },
{ "zsh", ULIGHT_LANG_BASH },
