#!/usr/bin/env python3
# One-off: builds corpus/<lang>.vocab (0x1E-separated fragments) from the seeds, from string literals
# in the language sources at the pinned commit, and from the hand-written lists below.
import re, os, sys
R='/repo'
files={'bash':['bash'],'c':['cpp'],'cpp':['cpp'],'cowel':['cowel'],'css':['css'],'diff':['diff'],'ebnf':['ebnf'],
'html':['html'],'java':['java'],'javascript':['js'],'typescript':['js'],'json':['json'],'jsonc':['json'],'kotlin':['kotlin'],
'llvm':['llvm'],'lua':['lua'],'markdown':['markdown'],'nasm':['nasm'],'python':['python'],'rust':['rust'],'tex':['tex'],
'latex':['tex'],'txt':[],'xml':['xml'],'yaml':['yaml']}
common=['\n','\r\n','\r','\t',' ','  ','    ','\\','\\\n','\\\r\n','"','\'','`','""','\'\'','``','```','"""',"'''",'(',')','[',']','{','}','<','>','/','*','/*','*/','//','#','--','<!--','-->','-','+','=','&','|','!','?','.',',',';',':','@','$','%','^','~','_','0','1','9','a','x','A','Z','e','E','f','n','u','0x','0b','0o','1.','.5','1e5','1e+','1_000',"1'0",'\\n','\\u0041','\\x41','\\u{41}','\\U00000041','\\0','\\123','\0','\x0b','\x0c','\x7f','é','ß','λ','中','😀','\u2028','\u00a0','\ufeff','\u200d','e\u0301','\u0600','\U0010ffff','ñame','xé']
extra={
'cpp':['R"(',')"','R"x(',')x"','u8"','L\'','u8R"d(',"1'000",'0x1p3','0b1','#define','#include <a>','#include "a"','#if','  #  if','%:','??=','<:','<%','<=>','->*','...','::','"a"_s',"'a'_c",'import','module','export','co_await','#embed','#\\\ndefine','/\\\n/','"\\\n"','[[','noreturn',']]','import <x>;','import "x";','#include_next <','#warning a','0x','0xg','1.0f','1e-5L','.','..','u8','u8R','LR"','R"','R"a b(','R"0123456789abcdef(','_Atomic','__int128'],
'javascript':['`a${','}`','${','/a/g','/[/]/','=>','<a>','</a>','<a ','<>','</>','<a/>','<a b="c">','<a {...x}>','{/* */}','{','}','&amp;','&#x41;','#priv','#!/usr/bin/env node','1n','0n','?.','??=','**=','>>>=','return /x/','x /y/ z','<!--','-->','/[\\]/]/','/\\//','async','of','let','<a b={','<a b','</','<a.b:c','<div\n','\\u{61}bc'],
'bash':['$(','${','$((','))','`','<(','>(','#!','$1','$@','$#','$?','$x','${x:-','${x#','$\'','$"','-l','--opt','--opt=v','-','--','&&','||',';;','|&','<<EOF\n','EOF\n','<<-','<<<','>>','&>','2>&1','if','then','fi','echo','cd','x=1','a+=','case','esac','in','[[',']]','!','\\$','"$x"','"$(a)"','"${x}"','# c'],
'css':['@media','@import','@','#fff','#id','.cls',':root','::before','!important','url(','url("a")','rgb(','var(--x)','--x','10px','10%','1e3em','-1px','+.5','U+26','/* c */','a{b:c}','{','}','>','~','||','|=','^=','$=','*=','[a=b]','<!--','-->','\\41 ','\\','"a\\\nb"','color','@x{','@media(a:b){',';',':','and','not','only'],
'html':['<script>','</script>','<style>','</style>','<textarea>','</textarea>','<title>','</title>','<!DOCTYPE html>','<!doctype','<![CDATA[',']]>','<!--','-->','--!>','<!-->','<!--->','&amp;','&#38;','&#x26;','&','&;','&#;','&#x;','<a href=x>','<a b="c" d=\'e\'>','</a>','</','<','<a','<a/>','<a /','<a b','<a b=','<a b="','<a b=\'','<?xml ?>','<?','<!','<svg>','<SCRIPT>','</SCRIPT >','</scriptx>','<my-tag>','<h1>','style','x=1;','a{}','<script type=module>','<!--[if IE]>','<![endif]-->','</script','<script/>','<br>'],
'xml':['<?xml version="1.0"?>','<?pi x?>','<?','?>','<![CDATA[',']]>','<!DOCTYPE a [','<!ELEMENT','<!ATTLIST','<!ENTITY x "y">','%pe;','&amp;','&#38;','&#x26;','&#','&','<a:b c:d="e">','</a:b>','<a/>','<!--','--','-->','<','</','<a b="','<a b=\'','=',']>','xmlns','<a b=c>','<-','<a\n','&x','<?xml','<?XML ','<?a'],
'markdown':['# ','## ','####### ','#\n','===\n','---\n','***\n','- ','* ','+ ','1. ','1) ','> ','>','    ','\t','```','```cpp\n','```\n','~~~','~~~\n','`','``','*','**','***','_','__','[','](','](a "b")','![','<http://a>','<a@b.c>','<div>','</div>','<!--','-->','<?','?>','<!A','<![CDATA[',']]>','&amp;','&#35;','\\','\\\n','  \n','\n\n','|','|-|','~','~~','[a]: b','[^1]','- [ ] ','- [x] ','<script>','</script>','<pre>','1234567890. ',':','```js\n','```html\n','    ```\n','-\n','1.\n','=\n','-\n','> ```\n','- ```\n',' - ','   - ','a\n'],
'yaml':['---\n','...\n','--- ','%YAML 1.2\n','%TAG ! x\n','- ','? ',': ',':','key:','key: ','"k": ','|\n','>\n','|-\n','|+2\n','>-','  ','    ','&a ','*a ','!t ','!!str ','!<x>','{','}','[',']',', ','#c',' # c','~','null','true','yes','0x1f','0o7','1.5','.inf','-.INF','.nan','2001-12-14','"a\\n"',"'it''s'",'"a\n  b"',"'","\"",'<<','\\','@','`','- - ','? - ','|','>','|1','|9\n','\n\n','-','?','a b: c','a:b','a#b','!','&','*','!!','{a: b, ','[a, ','"\\x41\\u0041\\U00000041"','\ta'],
'lua':['--','--[[',']]','--[=[',']=]','[[','[=[','[==[',']==]','---','"','\'','\\z','\\x41','\\065','\\u{41}','0x1p4','0x.1','1e-3','..','...','::','::l::','goto','//','~=','<<','>>','#','#!lua\n','<const>','local','function','end','\\\n','[','[='],
'python':['"""',"'''",'f"','f"{','}"','{{','}}','{x!r:>{w}}','r"','rb\'','b"','u"','fr"""','# c','@d','@a.b\n','1_000','0o7','1j','1.5e3J','...','->',':=','**','//=','!=','match x:','case _:','type X','lambda','None','True','self','cls','\\N{DASH}','\\u00e9','\\U0001F600','\\x41','\\\n','async def','__init__','rf"','Rb"','bR"','F"{','t"','1__0','01','0xg','1if'],
'rust':["'a","'a'","'\\n'","b'a'",'b"','br"','br#"','"#','r"','r#"','r##"','"##','r#type','c"','cr#"','///','//!','/**','/*!','/*','*/','/* /* */ */','#[','#![','#!/bin','!','println!','1u8','1_f32','0x_1','0b2','1.','1..2','1.e5','1e','::<','<\'a>','\'static','\'_',"'l: loop",'..=','?','|x|','=>','->','&&','macro_rules!','$x:expr','self','Self','crate','\\u{1F600}','\\x7F',"'",'b\'','#!','r#','r#\'a',"'\\''"],
'kotlin':['"""','"','$x','${','}','$','@A','@file:A','label@','return@l','this@X','`a b`','`','//','/*','/**','*/','/* /* */ */',"'a'","'\\u0041'",'0x1F','0b1','1_0','1.5f','1e5','1uL','1L','..','..<','?.','?:','!!','!in','!is','as?','===','::','->','fun','val','it','\\$','\\n','#!k\n','1.','.5','$$"'],
'java':['"""','\n"""','"','\'a\'','\'\\u0041\'','\\uuu0041','@A','@interface','@Override','//','/*','/**','*/','0x1p3','0x1.8p-3f','0b1','1_0','1L','1.5f','.5d','1e5','01','09','non-sealed','::','->','>>>=','...','sealed','record','var','yield','\\s','\\0','\\377','/**/','/***/','///'],
'nasm':['; c','\n','label:','.local:','..@sp','mov','eax','[rax+rcx*4]','dword','%define','%macro','%%l','%1','%{x}','%endif','db','"a"',"'a'",'`a\\n`','0x1f','1fh','0b1','101b','17o','1e5','1.5','$','$$','$x','0h','section','.text','global','times','resb','equ','\\\n','%+','%!e','%?','%[','_a','@','?','#','~','0xg','1_0','$0f','0f','1e+','xmm0','st0','lock','rep'],
'llvm':['; c','%x','%0','@g','@"a b"','%"x"','!0','!md','!"s"','#0','$c','i32','i1','ptr','define','declare','c"a\\00"','"a"','\\22','0x1F','0xK1F','0xH1','0xL','u0x1','s0x1','1.5','1e+5','-1','true','false','null','undef','zeroinitializer','label:','"l":','label','x','=',',','...','*','<4 x i32>','add','ret','br','call','to','void','attributes','-a.b:','$','1:','%-x','DIFlag','dbg','^0'],
'ebnf':['(*','*)','(* (* *) *)','"a"',"'a'",'? s ?','?','=',';','.',',','|','/','!','{','}','[',']','(/','/)','(:',':)','-','*','3 * a','a b','a = b;','a-b','1','(',')','::=',':='],
'diff':['--- a\n','+++ b\n','@@ -1,2 +3,4 @@\n','@@ -1 +1 @@ f()\n','+a\n','-a\n',' a\n','!a\n','*** a\n','***************\n','*** 1,2 ****\n','--- 1,2 ----\n','\\ No newline at end of file\n','diff --git a b\n','index 1..2\n','\n','---','+++','@@','***','-- a\n','++ b\n','---\n','+++\n','@@\n','--- \n','-','+','!',' ','*','@'],
'tex':['\\a','\\begin{x}','\\end{x}','%c\n','%','{','}','$','$$','#1','##','&','^','_','~','\\\\','\\%','\\$','\\{','\\ ','\\','\\a*','\\@a','\\(','\\[','<a>','</a>','<','&lt;'],
'json':['{','}','[',']',':',',','"a"','"a":1','true','false','null','1','-1','1.5e3','-','1.','.5','1e','01','"\\n"','"\\u0041"','"\\uD83D\\uDE00"','"\\uD800"','"\\x"','"','"\\','//c\n','/*c*/','/*','//','/','nul','tru','fals','nulll','+1','Infinity','\'a\'','"\t"','{"a"','{"a":','[1,','[1 2]','\\','\x00','\x1f','"\x7f"'],
'cowel':['\\a','\\a{','}','\\a[','\\a(',')',']','\\\\','\\{','\\}','\\:','\\:*','\\#x','\\"','"','\\.','{','[','(','x = 1','x=','...','$x','\\cowel_x','\\ ','\\\n','\\\r\n','1.5','0x1F','0b1','0o7','1e5','-1','true','false','unit','null','infinity','\\"a"','\\%','\\-','\\:abc','\\*','\\+','"\\a"','"\\u{41}"','\\u{41}','\\N{X}',"\\'",'a::b','\\a::b','\\(','\\[x]','\\U{','\\N{','\\let','\\fun','\\if','+','&&','||','==','<=','/*','*/','//','\\.\\(','and','or','not','\\/','\\:]','-x','(-x)','- 1'],
}
extra['c']=extra['cpp'];extra['typescript']=extra['javascript']+['interface','type','satisfies','abstract','declare','as','is','keyof','readonly','enum','namespace',':','?:','<T>','<T,>','infer','asserts','unique symbol','implements','@dec','!.']
extra['jsonc']=extra['json'];extra['latex']=extra['tex'];extra['txt']=[]
def unesc(s):
    try: return s.encode().decode('unicode_escape').encode('latin1').decode('utf8','ignore') if '\\' in s else s
    except Exception: return s
for l,fs in files.items():
    v=set(common)|set(extra.get(l,[]))
    for f in fs:
        for p in (f'{R}/src/main/cpp/lang/{f}.cpp',f'{R}/include/ulight/impl/lang/{f}.hpp'):
            if os.path.exists(p):
                t=open(p).read()
                for m in re.finditer(r'u8"((?:[^"\\\n]|\\.)*)"',t):
                    x=unesc(m.group(1))
                    if 0<len(x)<=24: v.add(x)
                for m in re.finditer(r"u8'((?:[^'\\\n]|\\.)+)'",t):
                    v.add(unesc(m.group(1)))
    sp=f'corpus/{l}.seeds'
    if os.path.exists(sp):
        t=open(sp,'rb').read().decode()
        if l!='markdown':
            for m in re.finditer(r'\w+|[^\w\s]+|[^\w\s]',t):
                if len(m.group(0))<=20: v.add(m.group(0))
    v={x for x in v if x and '\x1e' not in x}
    open(f'corpus/{l}.vocab','wb').write(b'\x1e'.join(sorted(x.encode() for x in v)))
    print(l,len(v),end='; ')
