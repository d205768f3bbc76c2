use crate::{lang, lang::DynLang};
pub fn all() -> Vec<Box<dyn DynLang>> {
    let mut v: Vec<Box<dyn DynLang>> = Vec::new();
    lang!(v, "actionscript", oak_actionscript, [lexer, parser], ActionScriptLanguage, ActionScriptLexer, ActionScriptParser, |cfg| ActionScriptLexer::new(cfg), |cfg| ActionScriptParser::new(cfg));
    lang!(v, "ada", oak_ada, [language, lexer, parser], AdaLanguage, AdaLexer, AdaParser, |cfg| AdaLexer::new(cfg), |cfg| AdaParser::new(cfg));
    lang!(v, "apl", oak_apl, [language, lexer, parser], AplLanguage, AplLexer, AplParser, |cfg| AplLexer::new(cfg), |cfg| AplParser::new(cfg));
    lang!(v, "ascii-doc", oak_ascii_doc, [lexer, parser], AsciiDocLanguage, AsciiDocLexer, AsciiDocParser, |cfg| AsciiDocLexer::new(cfg), |cfg| AsciiDocParser::new(cfg));
    lang!(v, "bash", oak_bash, [language, lexer, parser], BashLanguage, BashLexer, BashParser, |cfg| BashLexer::new(cfg), |cfg| BashParser::new(cfg));
    lang!(v, "bat", oak_bat, [language, lexer, parser], BatLanguage, BatLexer, BatParser, |cfg| BatLexer::new(cfg), |cfg| BatParser::new(cfg));
    lang!(v, "c", oak_c, [language, lexer, parser], CLanguage, CLexer, CParser, |cfg| CLexer::new(cfg), |cfg| CParser::new(cfg));
    lang!(v, "clojure", oak_clojure, [parser], ClojureLanguage, ClojureLexer, ClojureParser, |cfg| ClojureLexer::new(cfg), |cfg| ClojureParser::new(cfg));
    lang!(v, "cmd", oak_cmd, [language, lexer, parser], CmdLanguage, CmdLexer, CmdParser, |cfg| CmdLexer::new(cfg), |cfg| CmdParser::new(cfg));
    lang!(v, "cobol", oak_cobol, [language, lexer, parser], CobolLanguage, CobolLexer, CobolParser, |cfg| CobolLexer::new(cfg), |cfg| CobolParser::new(cfg));
    lang!(v, "coq", oak_coq, [language, lexer, parser], CoqLanguage, CoqLexer, CoqParser, |cfg| CoqLexer::new(cfg), |cfg| CoqParser::new(cfg));
    lang!(v, "cpp", oak_cpp, [language, lexer, parser], CppLanguage, CppLexer, CppParser, |cfg| CppLexer::new(cfg), |cfg| CppParser::new(cfg));
    lang!(v, "crystal", oak_crystal, [language, lexer, parser], CrystalLanguage, CrystalLexer, CrystalParser, |cfg| CrystalLexer::new(cfg), |cfg| CrystalParser::new(cfg));
    lang!(v, "csharp", oak_csharp, [language, lexer, parser], CSharpLanguage, CSharpLexer, CSharpParser, |cfg| CSharpLexer::new(cfg), |cfg| CSharpParser::new(cfg));
    lang!(v, "css", oak_css, [language, lexer, parser], CssLanguage, CssLexer, CssParser, |cfg| CssLexer::new(cfg), |cfg| CssParser::new(cfg));
    lang!(v, "csv", oak_csv, [language, lexer, parser], CsvLanguage, CsvLexer, CsvParser, |cfg| CsvLexer::new(cfg), |cfg| CsvParser::new(cfg));
    lang!(v, "d", oak_d, [language, lexer, parser], DLanguage, DLexer, DParser, |cfg| DLexer::new(cfg), |cfg| DParser::new(cfg));
    lang!(v, "dart", oak_dart, [language, lexer, parser], DartLanguage, DartLexer, DartParser, |cfg| DartLexer::new(cfg), |cfg| DartParser::new(cfg));
    lang!(v, "dejavu", oak_dejavu, [language, lexer, parser], DejavuLanguage, DejavuLexer, DejavuParser, |cfg| DejavuLexer::new(cfg), |cfg| DejavuParser::new(cfg));
    lang!(v, "delphi", oak_delphi, [parser], DelphiLanguage, DelphiLexer, DelphiParser, |cfg| DelphiLexer::new(cfg), |cfg| DelphiParser::new(cfg));
    lang!(v, "dhall", oak_dhall, [language, lexer, parser], DHallLanguage, DHallLexer, DHallParser, |cfg| DHallLexer::new(cfg), |cfg| DHallParser::new(cfg));
    lang!(v, "django", oak_django, [], DjangoLanguage, DjangoLexer, DjangoParser, |cfg| DjangoLexer::new(cfg), |cfg| DjangoParser::new(cfg));
    lang!(v, "dockerfile", oak_dockerfile, [], DockerfileLanguage, DockerfileLexer, DockerfileParser, |cfg| DockerfileLexer::new(cfg), |cfg| DockerfileParser::new(cfg));
    lang!(v, "dot", oak_dot, [language, lexer, parser], DotLanguage, DotLexer, DotParser, |cfg| DotLexer::new(cfg), |cfg| DotParser::new(cfg));
    lang!(v, "elixir", oak_elixir, [parser], ElixirLanguage, ElixirLexer, ElixirParser, |cfg| ElixirLexer::new(cfg), |cfg| ElixirParser::new(cfg));
    lang!(v, "elm", oak_elm, [parser], ElmLanguage, ElmLexer, ElmParser, |cfg| ElmLexer::new(cfg), |cfg| ElmParser::new(cfg));
    lang!(v, "erlang", oak_erlang, [language, lexer, parser], ErlangLanguage, ErlangLexer, ErlangParser, |cfg| ErlangLexer::new(cfg), |cfg| ErlangParser::new(cfg));
    lang!(v, "fortran", oak_fortran, [parser], FortranLanguage, FortranLexer, FortranParser, |cfg| FortranLexer::new(cfg), |cfg| FortranParser::new(cfg));
    lang!(v, "fsharp", oak_fsharp, [parser], FSharpLanguage, FSharpLexer, FSharpParser, |cfg| FSharpLexer::new(cfg), |cfg| FSharpParser::new(cfg));
    lang!(v, "go", oak_go, [language, lexer, parser], GoLanguage, GoLexer, GoParser, |cfg| GoLexer::new(cfg), |cfg| GoParser::new(cfg));
    lang!(v, "graphql", oak_graphql, [language, lexer, parser], GraphQLLanguage, GraphQLLexer, GraphQLParser, GraphQLLanguage {}, |cfg| GraphQLLexer::new(cfg), |cfg| GraphQLParser::new(cfg));
    lang!(v, "groovy", oak_groovy, [language, lexer, parser], GroovyLanguage, GroovyLexer, GroovyParser, |cfg| GroovyLexer::new(cfg), |cfg| GroovyParser::new(cfg));
    lang!(v, "gsgl", oak_gsgl, [language, lexer, parser], GsglLanguage, GsglLexer, GsglParser, |cfg| GsglLexer::new(cfg), |cfg| GsglParser::new(cfg.clone()));
    lang!(v, "handlebars", oak_handlebars, [], HandlebarsLanguage, HandlebarsLexer, HandlebarsParser, |cfg| HandlebarsLexer::new(cfg), |cfg| HandlebarsParser::new(cfg));
    lang!(v, "haskell", oak_haskell, [], HaskellLanguage, HaskellLexer, HaskellParser, |cfg| HaskellLexer::new(cfg), |cfg| HaskellParser::new(cfg));
    lang!(v, "hlsl", oak_hlsl, [language, lexer, parser], HlslLanguage, HlslLexer, HlslParser, |cfg| HlslLexer::new(cfg), |cfg| HlslParser::new(cfg));
    lang!(v, "html", oak_html, [language, lexer, parser], HtmlLanguage, HtmlLexer, HtmlParser, |cfg| HtmlLexer::new(cfg), |cfg| HtmlParser::new(cfg.clone()));
    lang!(v, "idl", oak_idl, [language, lexer, parser], IdlLanguage, IdlLexer, IdlParser, |cfg| IdlLexer::new(cfg), |cfg| IdlParser::new(cfg));
    lang!(v, "ini", oak_ini, [language, lexer, parser], IniLanguage, IniLexer, IniParser, |cfg| IniLexer::new(cfg), |cfg| IniParser::new(cfg));
    lang!(v, "j", oak_j, [language, lexer, parser], JLanguage, JLexer, JParser, |cfg| JLexer::new(cfg), |cfg| JParser::new(cfg));
    lang!(v, "jasm", oak_jasm, [language, lexer, parser], JasmLanguage, JasmLexer, JasmParser, |cfg| JasmLexer::new(cfg), |cfg| JasmParser::new(cfg));
    lang!(v, "jasmin", oak_jasmin, [], JasminLanguage, JasminLexer, JasminParser, |cfg| JasminLexer::new(cfg), |cfg| JasminParser::new(cfg));
    lang!(v, "java", oak_java, [language, lexer, parser], JavaLanguage, JavaLexer, JavaParser, |cfg| JavaLexer::new(cfg), |cfg| JavaParser::new(cfg));
    lang!(v, "javadoc", oak_javadoc, [language, lexer, parser], JavadocLanguage, JavadocLexer, JavadocParser, |cfg| JavadocLexer::new(cfg), |cfg| JavadocParser::new(cfg));
    lang!(v, "javascript", oak_javascript, [language, lexer, parser], JavaScriptLanguage, JavaScriptLexer, JavaScriptParser, |cfg| JavaScriptLexer::new(cfg), |cfg| JavaScriptParser::new(cfg));
    lang!(v, "json", oak_json, [language, lexer, parser], JsonLanguage, JsonLexer, JsonParser, |cfg| JsonLexer::new(cfg), |cfg| JsonParser::new(cfg));
    lang!(v, "julia", oak_julia, [language, lexer, parser], JuliaLanguage, JuliaLexer, JuliaParser, |cfg| JuliaLexer::new(cfg), |cfg| JuliaParser::new(cfg));
    lang!(v, "kotlin", oak_kotlin, [language, lexer, parser], KotlinLanguage, KotlinLexer, KotlinParser, |cfg| KotlinLexer::new(cfg), |cfg| KotlinParser::new(cfg));
    lang!(v, "lean", oak_lean, [language, lexer, parser], LeanLanguage, LeanLexer, LeanParser, |cfg| LeanLexer::new(cfg), |cfg| LeanParser::new(cfg));
    lang!(v, "llvm-ir", oak_llvm_ir, [language, lexer, parser], LLvmLanguage, LLvmLexer, LLirParser, |cfg| LLvmLexer::new(cfg), |cfg| LLirParser::new(cfg));
    lang!(v, "lua", oak_lua, [language, lexer, parser], LuaLanguage, LuaLexer, LuaParser, |cfg| LuaLexer::new(cfg), |cfg| LuaParser::new(cfg));
    lang!(v, "markdown", oak_markdown, [language, lexer, parser], MarkdownLanguage, MarkdownLexer, MarkdownParser, |cfg| MarkdownLexer::new(cfg), |cfg| MarkdownParser::new(cfg));
    lang!(v, "matlab", oak_matlab, [language, lexer, parser], MatlabLanguage, MatlabLexer, MatlabParser, |cfg| MatlabLexer::new(cfg), |cfg| MatlabParser::new(cfg));
    lang!(v, "mermaid", oak_mermaid, [language, lexer, parser], MermaidLanguage, MermaidLexer, MermaidParser, |cfg| MermaidLexer::new(cfg), |cfg| MermaidParser::new(cfg));
    lang!(v, "mojo", oak_mojo, [lexer, parser], MojoLanguage, MojoLexer, MojoParser, |cfg| MojoLexer::new(), |cfg| MojoParser::new());
    lang!(v, "msil", oak_msil, [language, lexer, parser], MsilLanguage, MsilLexer, MsilParser, |cfg| MsilLexer::new(cfg), |cfg| MsilParser::new(cfg));
    lang!(v, "nginx", oak_nginx, [language, lexer, parser], NginxLanguage, NginxLexer, NginxParser, |cfg| NginxLexer::new(cfg), |cfg| NginxParser::new(cfg));
    lang!(v, "nim", oak_nim, [language, lexer, parser], NimLanguage, NimLexer, NimParser, |cfg| NimLexer::new(cfg), |cfg| NimParser::new(cfg));
    lang!(v, "nix", oak_nix, [language, lexer, parser], NixLanguage, NixLexer, NixParser, |cfg| NixLexer::new(cfg), |cfg| NixParser::new(cfg));
    lang!(v, "notedown", oak_notedown, [language, lexer, parser], NotedownLanguage, NotedownLexer, NoteParser, |cfg| NotedownLexer::new(cfg), |cfg| NoteParser::new(cfg));
    lang!(v, "objective-c", oak_objective_c, [language, lexer, parser], ObjectiveCLanguage, ObjectiveCLexer, ObjectiveCParser, |cfg| ObjectiveCLexer::new(cfg), |cfg| ObjectiveCParser::new(cfg));
    lang!(v, "ocaml", oak_ocaml, [language, lexer, parser], OCamlLanguage, OCamlLexer, OCamlParser, |cfg| OCamlLexer::new(cfg), |cfg| OCamlParser::new(cfg));
    lang!(v, "org-mode", oak_org_mode, [language, lexer, parser], OrgModeLanguage, OrgModeLexer, OrgModeParser, |cfg| OrgModeLexer::new(cfg), |cfg| OrgModeParser::new(cfg));
    lang!(v, "pascal", oak_pascal, [language, lexer, parser], PascalLanguage, PascalLexer, PascalParser, |cfg| PascalLexer::new(cfg), |cfg| PascalParser::new(cfg));
    lang!(v, "perl", oak_perl, [language, lexer, parser], PerlLanguage, PerlLexer, PerlParser, |cfg| PerlLexer::new(cfg), |cfg| PerlParser::new(cfg));
    lang!(v, "php", oak_php, [language, lexer, parser], PhpLanguage, PhpLexer, PhpParser, |cfg| PhpLexer::new(cfg), |cfg| PhpParser::new(cfg));
    lang!(v, "powershell", oak_powershell, [language, lexer, parser], PowerShellLanguage, PowerShellLexer, PowerShellParser, |cfg| PowerShellLexer::new(cfg), |cfg| PowerShellParser::new(cfg));
    lang!(v, "prolog", oak_prolog, [language, lexer, parser], PrologLanguage, PrologLexer, PrologParser, |cfg| PrologLexer::new(cfg), |cfg| PrologParser::new(cfg.clone()));
    lang!(v, "protobuf", oak_protobuf, [language, lexer, parser], ProtobufLanguage, ProtobufLexer, ProtobufParser, |cfg| ProtobufLexer::new(cfg), |cfg| ProtobufParser::new(cfg));
    lang!(v, "purescript", oak_purescript, [language, lexer, parser], PurescriptLanguage, PurescriptLexer, PurescriptParser, |cfg| PurescriptLexer::new(cfg), |cfg| PurescriptParser::new(cfg));
    lang!(v, "python", oak_python, [language, lexer, parser], PythonLanguage, PythonLexer, PythonParser, |cfg| PythonLexer::new(cfg), |cfg| PythonParser::new(cfg));
    lang!(v, "r", oak_r, [language, lexer, parser], RLanguage, RLexer, RParser, |cfg| RLexer::new(cfg), |cfg| RParser::new(cfg));
    lang!(v, "raku", oak_raku, [language, lexer, parser], RakuLanguage, RakuLexer, RakuParser, |cfg| RakuLexer::new(), |cfg| RakuParser::new(cfg.clone()));
    lang!(v, "rbq", oak_rbq, [language, lexer, parser], RbqLanguage, RbqLexer, RbqParser, |cfg| RbqLexer::new(cfg), |cfg| RbqParser::new(cfg));
    lang!(v, "regex", oak_regex, [language, lexer, parser], RegexLanguage, RegexLexer, RegexParser, |cfg| RegexLexer::new(cfg), |cfg| RegexParser::new(cfg));
    lang!(v, "ruby", oak_ruby, [language, lexer, parser], RubyLanguage, RubyLexer, RubyParser, |cfg| RubyLexer::new(cfg), |cfg| RubyParser::new(cfg));
    lang!(v, "rust", oak_rust, [language, lexer, parser], RustLanguage, RustLexer, RustParser, |cfg| RustLexer::new(cfg), |cfg| RustParser::new(cfg));
    lang!(v, "sass", oak_sass, [language, lexer, parser], SassLanguage, SassLexer, SassParser, |cfg| SassLexer::new(cfg), |cfg| SassParser::new(cfg));
    lang!(v, "scala", oak_scala, [language, lexer, parser], ScalaLanguage, ScalaLexer, ScalaParser, |cfg| ScalaLexer::new(cfg), |cfg| ScalaParser::new(cfg));
    lang!(v, "scheme", oak_scheme, [language, lexer, parser], SchemeLanguage, SchemeLexer, SchemeParser, |cfg| SchemeLexer::new(cfg), |cfg| SchemeParser::new(cfg));
    lang!(v, "scss", oak_scss, [language, lexer, parser], ScssLanguage, ScssLexer, ScssParser, |cfg| ScssLexer::new(cfg), |cfg| ScssParser::new(cfg));
    lang!(v, "smalltalk", oak_smalltalk, [language, lexer, parser], SmalltalkLanguage, SmalltalkLexer, SmalltalkParser, |cfg| SmalltalkLexer::new(cfg), |cfg| SmalltalkParser::new(cfg));
    lang!(v, "solidity", oak_solidity, [language, lexer, parser], SolidityLanguage, SolidityLexer, SolidityParser, |cfg| SolidityLexer::new(cfg), |cfg| SolidityParser::new(cfg));
    lang!(v, "sql", oak_sql, [language, lexer, parser], SqlLanguage, SqlLexer, SqlParser, |cfg| SqlLexer::new(cfg), |cfg| SqlParser::new(cfg));
    lang!(v, "stylus", oak_stylus, [language, lexer], StylusLanguage, StylusLexer, StylusParser, |cfg| StylusLexer::new(cfg), |cfg| StylusParser::new(cfg));
    lang!(v, "svelte", oak_svelte, [language, lexer, parser], SvelteLanguage, SvelteLexer, SvelteParser, |cfg| SvelteLexer::new(cfg), |cfg| SvelteParser::new(cfg));
    lang!(v, "swift", oak_swift, [language, lexer, parser], SwiftLanguage, SwiftLexer, SwiftParser, |cfg| SwiftLexer::new(cfg), |cfg| SwiftParser::new(cfg));
    lang!(v, "tailwind", oak_tailwind, [language, lexer, parser], TailwindLanguage, TailwindLexer, TailwindParser, |cfg| TailwindLexer::new(cfg), |cfg| TailwindParser::new(cfg));
    lang!(v, "tcl", oak_tcl, [language, lexer, parser], TclLanguage, TclLexer, TclParser, |cfg| TclLexer::new(cfg), |cfg| TclParser::new(cfg));
    lang!(v, "tex", oak_tex, [language, lexer, parser], TexLanguage, TexLexer, TexParser, |cfg| TexLexer::new(cfg), |cfg| TexParser::new(cfg));
    lang!(v, "toml", oak_toml, [language, lexer, parser], TomlLanguage, TomlLexer, TomlParser, |cfg| TomlLexer::new(cfg), |cfg| TomlParser::new(cfg));
    lang!(v, "twig", oak_twig, [language, lexer, parser], TwigLanguage, TwigLexer, TwigParser, |cfg| TwigLexer::new(cfg), |cfg| TwigParser::new(cfg));
    lang!(v, "typescript", oak_typescript, [language, lexer, parser], TypeScriptLanguage, TypeScriptLexer, TypeScriptParser, |cfg| TypeScriptLexer::new(cfg), |cfg| TypeScriptParser::new(cfg));
    lang!(v, "typst", oak_typst, [language, lexer, parser], TypstLanguage, TypstLexer, TypstParser, |cfg| TypstLexer::new(cfg), |cfg| TypstParser::new(cfg));
    lang!(v, "vala", oak_vala, [language, lexer, parser], ValaLanguage, ValaLexer, ValaParser, |cfg| ValaLexer::new(cfg), |cfg| ValaParser::new(cfg));
    lang!(v, "valkyrie", oak_valkyrie, [language, lexer, parser], ValkyrieLanguage, ValkyrieLexer, ValkyrieParser, |cfg| ValkyrieLexer::new(cfg), |cfg| ValkyrieParser::new(cfg));
    lang!(v, "vampire", oak_vampire, [language, lexer, parser], VampireLanguage, VampireLexer, VampireParser, |cfg| VampireLexer::new(cfg), |cfg| VampireParser::new(cfg));
    lang!(v, "verilog", oak_verilog, [language, lexer, parser], VerilogLanguage, VerilogLexer, VerilogParser, |cfg| VerilogLexer::new(cfg), |cfg| VerilogParser::new(cfg));
    lang!(v, "vhdl", oak_vhdl, [language, lexer, parser], VhdlLanguage, VhdlLexer, VhdlParser, |cfg| VhdlLexer::new(cfg), |cfg| VhdlParser::new(cfg));
    lang!(v, "vlang", oak_vlang, [language, lexer, parser], VLangLanguage, VLangLexer, VLangParser, |cfg| VLangLexer::new(cfg), |cfg| VLangParser::new(cfg));
    lang!(v, "voc", oak_voc, [language, lexer, parser], VocLanguage, VocLexer, VocParser, |cfg| VocLexer::new(cfg), |cfg| VocParser::new(cfg));
    lang!(v, "voml", oak_voml, [language, lexer, parser], VomlLanguage, VomlLexer, VomlParser, |cfg| VomlLexer::new(cfg), |cfg| VomlParser::new(cfg));
    lang!(v, "von", oak_von, [language, lexer, parser], VonLanguage, VonLexer, VonParser, |cfg| VonLexer::new(cfg), |cfg| VonParser::new(cfg));
    lang!(v, "wat", oak_wat, [language, lexer, parser], WatLanguage, WatLexer, WatParser, |cfg| WatLexer::new(cfg), |cfg| WatParser::new(cfg));
    lang!(v, "wgsl", oak_wgsl, [language, lexer, parser], WgslLanguage, WgslLexer, WgslParser, |cfg| WgslLexer::new(cfg), |cfg| WgslParser::new(cfg));
    lang!(v, "wit-component", oak_wit, [language, lexer, parser], WitLanguage, WitLexer, WitParser, |cfg| WitLexer::new(cfg), |cfg| WitParser::new(cfg));
    lang!(v, "wolfram", oak_wolfram, [language, lexer, parser], WolframLanguage, WolframLexer, WolframParser, |cfg| WolframLexer::new(cfg), |cfg| WolframParser::new(cfg));
    lang!(v, "xml", oak_xml, [language, lexer, parser], XmlLanguage, XmlLexer, XmlParser, |cfg| XmlLexer::new(cfg), |cfg| XmlParser::new(cfg));
    lang!(v, "yaml", oak_yaml, [language, lexer, parser], YamlLanguage, YamlLexer, YamlParser, |cfg| YamlLexer::new(cfg), |cfg| YamlParser::new(cfg));
    lang!(v, "zig", oak_zig, [language, lexer, parser], ZigLanguage, ZigLexer, ZigParser, |cfg| ZigLexer::new(cfg), |cfg| ZigParser::new(cfg));    v
}
