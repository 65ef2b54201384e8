import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
G="tonnikala/languages/python/generator.py"; RT="tonnikala/runtime/python.py"; CB="tonnikala/runtime/_buffer.c"
IRG="tonnikala/ir/generate.py"; IRN="tonnikala/ir/nodes.py"; SY="tonnikala/syntaxes/tonnikala.py"; DP="tonnikala/syntaxes/docparser.py"
LD="tonnikala/loader.py"; EX="tonnikala/expr.py"; PYX="tonnikala/languages/python/__init__.py"
p("C01","Auto-escaping: dynamic values are HTML-escaped exactly once",
 "Every value a template interpolates into text, into an attribute, or through py:content/py:replace/py:attrs appears in the rendered output with each of & < > \" ' HTML-escaped exactly once. The only exceptions are values the template wraps in literal() or that are markup-aware (markupsafe.Markup, an object with __html__, the result of calling a py:def or block), which appear verbatim, neither escaped nor escaped twice. This holds wherever the value comes from: context, loop, function argument, py:with, inherited, overridden or imported function.",
 ["inputs","programs"],"every template built from the supported constructs, every context value (strings over all five special characters, Markup, __html__ objects, numbers, None, function results) and every output position",
 "tests escape a handful of strings in two positions; the guarantee is over every position, construct nesting and value kind",
 [G,RT,CB,EX],[("escape call wrapped around every interpolated expression",G),("output_boolean_attr escapes attribute values",RT+", "+CB)],
 ["Template.render output"])
p("C02","Static markup is reproduced faithfully",
 "A template without interpolation or control syntax renders to the same document: the same elements, attributes and attribute values, text, visible comments and doctype in the same order, with special characters in text and attribute values escaped exactly once, script and style content verbatim, <!--! comments and the control namespace declaration removed, and empty elements written in HTML5 form (void elements as <x />, others as <x></x>). Elements that may not contain markup in HTML (title, textarea) are processed like any other element. A document whose end tags do not match its start tags is rejected, never silently rearranged (elements still open at the end of the file are closed there).",
 ["inputs","programs"],"every sequence of start tags, end tags, void and self-closed elements, text, character and entity references, comments, doctype and raw-text elements, with any attribute quoting",
 "tests fix about ten small documents; the guarantee is over every event sequence and nesting",
 [DP,IRG,IRN,SY],[("element stack of the document parser",DP),("flattening of elements into start/end text and merging of text runs",IRG),("escaping of text and constant attributes",IRN)],
 ["Loader.load_string result or TemplateSyntaxError","Template.render output"])
p("C03","Interpolations start and end exactly where the rule says",
 "In text and attribute values, $ followed by {, a letter or _ starts an interpolation, $$ stands for one $, and any other $ is literal text. ${...} extends to the matching } of the Python expression (ignoring braces inside string literals and nested brackets); an unbraced one is an identifier followed by the longest run of .name, [...] and (...) trailers without intervening whitespace. Everything outside is preserved character for character, and an interpolation that never ends is a TemplateSyntaxError.",
 ["inputs"],"every string over letters, digits, $, braces, brackets, parentheses, dots, quotes, whitespace and punctuation, in text, attribute and script position",
 "the tests check about fifteen strings; the boundary rule is over all strings",
 [EX,PYX],[("text/expression scanner",EX),("brace and trailer matching over Python tokens",PYX)],
 ["Template.render output for the text","TemplateSyntaxError on load"])
p("C04","Control constructs compose according to their documented meaning",
 "py:if, py:unless, py:for, py:strip, py:content, py:replace, py:with, py:def and py:block render exactly what their documented meaning prescribes, as elements and as attributes, alone and combined on one element (nesting order block, if, unless, for, def, with, then strip/replace/content) and at any nesting depth. Compile-time constant conditions give the same output as the equivalent run-time conditions. A stripped element loses only its own start and end tags and a replaced element loses itself; siblings, ancestors and their order are never affected.",
 ["inputs","programs"],"every nesting and combination of the control constructs, every truth value kind and iterable length in the context",
 "tests try each construct alone with a couple of values and one combination; composition and nesting are unbounded",
 [SY,IRG,IRN,G],[("control-node stack in create_control_nodes / generate_element_node",SY),("guards around start and end tags",IRG),("statement generation and constant folding",G)],
 ["Template.render output"])
p("C05","Expressions are evaluated once, in document order; optimisation is invisible",
 "During one rendering every expression is evaluated exactly as many times, and in exactly the order, that the document's control flow prescribes: once per rendering of its position (a py:strip condition once for the start tag and once for the end tag), never in an untaken branch, with static attributes, interpolated attributes and py:attrs in that order. Merging of adjacent outputs, splitting of long output runs, and constant folding never change the output or the evaluation sequence, however large the template.",
 ["inputs","programs"],"every template, including runs of hundreds of adjacent outputs crossing the merge limit, with side-effecting expressions in any position",
 "tests check outputs only, with one fixed 500-item run; order, multiplicity and other run lengths are unobserved",
 [G,EX,IRG],[("coalesce_outputs / coalesce_strings and the 250-argument split",G),("static_expr_to_bool",G)],
 ["sequence of calls made by template expressions","Template.render output"])
p("C06","Attributes render by value kind",
 "An attribute whose whole value is one interpolation is omitted when the value is None or False, rendered as name=\"name\" when it is True, and otherwise rendered with the escaped string of the value (0 and the empty string included). An attribute mixing text and interpolations is always rendered, concatenating the text and the string of each value. py:attrs adds one attribute per pair of a mapping or pair sequence, in its order and under the same value rules, and nothing for None or an empty one; a static attribute without a value stays without a value.",
 ["inputs","programs"],"every attribute shape, value kind, attribute count and pairing with py:attrs, py:strip and empty/void elements, on both output buffer implementations",
 "tests cover one attribute at a time with a dozen values",
 [SY,IRN,IRG,G,RT,CB],[("constant/mutable/dynamic attribute split",IRN),("get_start_tag_nodes",IRG),("output_boolean_attr / output_attrs",RT+", "+CB)],
 ["Template.render output"])
p("C07","Names resolve lexically: locals, closures, context, functions, builtins",
 "An expression sees, innermost first, the variables of the enclosing py:with elements, py:for loops (whose variables are local to the surrounding function, block or py:with, as in Python) and py:def parameters (with defaults and keyword arguments), then the rendering context, then top-level functions of the template and its ancestors, then Python builtins; a function defined in the template captures the variables of its definition site, and bindings made inside a function or py:with never leak out of it. Variables local to a lambda or comprehension inside an expression do not affect the meaning of the same name elsewhere in the template. A template function keeps its meaning even when its name is also a Python builtin.",
 ["inputs","programs"],"every arrangement of definitions, bindings, loops, nested functions, recursion and uses of the same names at different depths",
 "tests hold one closure example and two def examples",
 [G,"tonnikala/languages/python/astalyzer.py",LD,RT],[("free variable analysis binding context names",G+", tonnikala/languages/python/astalyzer.py"),("variable scope functions of py:with",G),("bind",RT)],
 ["Template.render output or NameError"])
p("C08","Template inheritance: the most derived definition wins everywhere",
 "When a template extends another, rendering it renders the root ancestor's body with every block and top-level function replaced, wherever it is called from (in the ancestor's body, in other blocks or functions, in any template of the chain), by the definition from the most derived template that defines it; definitions not overridden are inherited. This holds for chains of any length, for templates rendered whole or by block/function name, and rendering a derived template never changes what its ancestors or siblings render.",
 ["inputs","programs","histories"],"every chain length, every subset of blocks/functions overridden at each level, every call structure among them, every order of rendering the templates of a family",
 "tests render one two-level chain with one block",
 [G,RT,LD],[("binder functions: child definitions are bound first, then the parent binder runs on the same context",G),("bind keeps the first binding",RT)],
 ["FileLoader.load(...).render output"])
p("C09","Imports expose exactly the imported template's functions, in isolation",
 "py:import makes the top-level functions and blocks of the imported template (and of the templates it extends) available under the alias and nowhere else: they see the importing rendering's context, but neither the importer's own functions nor variables override or are overridden by them. Accessing a name the imported template does not define raises AttributeError naming that template. Imports work at top level and nested in other constructs, through aliases used inside functions, and transitively. (Names already present in the rendering context are outside this property.)",
 ["inputs","programs"],"every import graph, alias placement and set of equal or different function names on both sides",
 "tests import one function once",
 [G,RT],[("import_defs and ImportedTemplate",RT),("PyImportNode",G)],
 ["FileLoader.load(...).render output","AttributeError"])
p("C10","Renderings are isolated from each other and from the caller's data",
 "Rendering a template is a function of the template and the context only: the output does not depend on what was rendered before, in which order, how often, with which outcome (including failures), or concurrently in other threads, even when the renderings share the template, its ancestors, imported templates or the loader. The context passed by the caller is left unmodified, no output or variable of one rendering is visible in another, and a template function's result is not changed by being output several times.",
 ["schedules","histories","inputs"],"every interleaving of concurrent renderings at expression granularity, every history of previous renderings and failures over a shared family of templates",
 "every test renders a fresh template once in one thread",
 [LD,RT,G],[("per-render context copy",LD),("fresh buffer per function activation",G),("binder-local functions",G)],
 ["Template.render outputs of all renderings","the caller's context object"])
p("C11","File loading: search order, caching and failure",
 "Without reload, FileLoader.load(name) resolves an absolute name to itself and a relative one to the first search path that has it, raises an OSError with ENOENT if none has, and after the first success returns that same template object for the name for ever, whatever happens to the files. A load that fails (missing, syntactically invalid, or broken ancestor) leaves nothing behind: later loads behave as if it had not been attempted and succeed once the file is fixed. Search paths added later are searched last.",
 ["histories","inputs"],"every sequence of file creations, edits, deletions, path additions and loads over several names, directories and dependencies",
 "tests load each file once from one directory",
 [LD],[("resolve / load / cache",LD)],
 ["identity and rendered content of FileLoader.load results","exceptions"])
p("C12","Reload mode never keeps serving stale templates",
 "With reload enabled, once the check interval (0.25 s) has passed since the last check, FileLoader.load gives what a fresh loader would give for the current files whenever any previously loaded file (including an ancestor reached through py:extends or a template reached through py:import) was changed - its modification time differs, in either direction - or deleted; unchanged templates keep being served from the cache. A file modified while it is being loaded, or while another thread is loading, is picked up at a later check rather than being cached as current for ever, and a deleted file makes only loads that need it fail.",
 ["histories","schedules","fault_sequences"],"every sequence of edits, deletions, re-creations, clock advances and loads over files with dependencies, and every point during a load at which another process or thread intervenes",
 "no test enables reload",
 [LD],[("_maybe_purge_cache: interval, stat comparison, whole-cache purge",LD),("mtime recorded with the template at load",LD)],
 ["rendered content of FileLoader.load results over time","exceptions"])
p("C13","The C and the pure-Python output buffers are interchangeable",
 "For every sequence of operations (calls with any number of strings, str subclasses, other objects or buffers including itself, boolean/attribute output, joining, converting to str, markup conversion), the accelerated and the pure-Python buffer have the same observable content and results, equal to the concatenation, in order, of the string form at the time of output of everything output so far. An operation that raises leaves in both exactly the output of the items before the failing one, and neither keeps objects it was given alive.",
 ["histories","inputs","fault_sequences"],"every operation sequence over several buffers and value kinds, including values whose conversion raises",
 "tests run the rendering suite on both implementations and never compare direct operations, aliasing or failures",
 [CB,RT],[("_do_append / output_boolean_attr / join",CB),("_TKPythonBufferImpl",RT)],
 ["str(), join(), return values, exceptions and references held"])
p("C14","Malformed templates are rejected with the right file and line",
 "Loading a template that is syntactically wrong (mismatched or surplus end tag, unknown control element or attribute, missing mandatory attribute, malformed loop, invalid or unterminated expression, unknown entity or out-of-range character reference in text, text outside the root, disallowed content in an extending template) raises TemplateSyntaxError and nothing else; it is never accepted or rendered differently. The error carries the file name and the 1-based source line of (one of) the offending construct(s), and so does the innermost entry of its traceback.",
 ["inputs","programs","fault_sequences"],"every valid template with one or several faults of the listed kinds injected anywhere, including multi-line tags, attributes and text",
 "tests check the exception type for about ten one-line templates and never the location",
 [DP,SY,IRG,IRN,G,"tonnikala/runtime/exceptions.py","tonnikala/runtime/debug.py",LD],[("position tracking of text and attribute values",DP+", tonnikala/helpers/__init__.py"),("syntax_error helpers",SY+", "+IRG),("get_fragment_ast",G)],
 ["exception type, lineno, filename, traceback of Loader.load_string"])
p("C15","Run-time errors surface unchanged and point at the template source",
 "An exception raised while rendering reaches the caller as the same exception object, whatever function, block, loop, import or ancestor it was raised in, and no partial output is returned. Its traceback contains, in call order, an entry with the template's file name, the source line and the kind of scope (top-level code, def, block) for every active template function, the innermost being the line of the expression that failed, also when the failure is in converting or escaping its value. After the failure the template and loader keep working.",
 ["inputs","programs","fault_sequences"],"every position at which an expression can fail, at any call depth across several template files",
 "tests check the type of two exceptions",
 [LD,"tonnikala/runtime/debug.py",G],[("handle_exception / translate_exception",LD+", tonnikala/runtime/debug.py"),("adjust_locations and node positions",G)],
 ["exception identity and traceback.extract_tb of Template.render"])
p("C16","Translation touches exactly the translatable text",
 "With translation enabled, each maximal run of static text between interpolations in an element's content, and in title, alt, placeholder, value and caption attributes, is looked up once per rendering through the context's gettext without its surrounding whitespace, which is preserved; everything else (script and style content, other attributes, markup, interpolated values) is never looked up. The translation is output escaped once. With an identity gettext, or translation disabled, the output equals that of the untranslated template (up to the order of the attributes of an element).",
 ["inputs","programs"],"every template and every translation table, including translations containing markup characters, with control constructs and inheritance around the text",
 "tests translate three small templates",
 [EX,SY,G,LD],[("partition_translatable_text / create_text_nodes",EX),("translatable state of the IR generator",SY),("egettext/gettext binding",G)],
 ["arguments of gettext calls","Template.render output"])
p("C17","Message extraction finds every message rendering can look up",
 "The messages extracted from a template file are exactly the texts that rendering it with translation enabled would look up through gettext for its static text and attributes, in untaken branches and uncalled functions too, plus the constant messages of gettext(), ngettext() (singular and plural), pgettext() (with the context) and dgettext() calls in its interpolated expressions; nothing that is never looked up is extracted.",
 ["inputs","programs"],"every template",
 "there is no test of extraction",
 ["tonnikala/i18n/__init__.py",IRN,EX],[("TonnikalaExtractor walks the IR tree",  "tonnikala/i18n/__init__.py"),("IRTree.__iter__",IRN)],
 ["extract_tonnikala results","gettext calls during rendering"])
p("C18","The JavaScript target renders what the Python target renders",
 "A template using the js: constructs (if, for, def, with, block, extends, strip, content, replace, attrs, interpolation) compiled to JavaScript and run renders the same output the same template with the py: constructs renders in Python, for contexts whose values have the same meaning in both languages: same escaping, attributes, control flow, closures and override rules.",
 ["inputs","programs"],"every template over the constructs common to both targets and every JSON-representable context",
 "tests render about twenty small templates on the JavaScript target, and no inheritance",
 ["tonnikala/languages/javascript/generator.py","tonnikala/runtime/javascript.js","tonnikala/languages/javascript/__init__.py",SY],[("JavaScript code generator","tonnikala/languages/javascript/generator.py"),("JavaScript run time: Buffer, escape, attributes, context binding","tonnikala/runtime/javascript.js")],
 ["output of the compiled template under node"])
p("C19","Chameleon syntax: tal: attributes have their documented meaning",
 "A template in the chameleon syntax renders what the corresponding py: template renders: tal:condition, tal:repeat, tal:omit-tag, tal:content, tal:replace and tal:attrs mean if, for, strip, content, replace and attrs (condition outside repeat), static markup, comments, doctype, value-less attributes and interpolation behave as in the native syntax, and the same output escaping applies.",
 ["inputs","programs"],"every template over the tal: attributes and every context",
 "tests cover each attribute once",
 ["tonnikala/syntaxes/chameleon.py",IRG],[("ChameleonIRGenerator","tonnikala/syntaxes/chameleon.py")],
 ["Loader(syntax='chameleon') output"])
p("C20","Pyramid integration honours its configuration",
 "After including tonnikala.pyramid, the extensions, search paths, reload and translation flags given by settings or directives, in any order and combination, take effect as documented: exactly the registered extensions are rendered by Tonnikala, templates are found by asset specification, then in the search paths in the order added, reload follows tonnikala.reload or else pyramid.reload_templates, and l10n controls translation. The renderer renders the template named by the renderer with the view's dictionary over the system values, and raises ValueError for a value that is not a dictionary, nor one that a dictionary can be updated with.",
 ["configurations","histories"],"every combination and order of settings and directives, every placement of templates among search paths",
 "there is no test of the Pyramid integration",
 ["tonnikala/pyramid/__init__.py",LD],[("includeme and directives","tonnikala/pyramid/__init__.py"),("PyramidTonnikalaLoader.resolve","tonnikala/pyramid/__init__.py")],
 ["pyramid.renderers.render results and errors"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert len(x['title'])<=80,x['title']
