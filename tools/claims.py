# claims added module by module: CLAIMS[id] = (technique, level, note)
for c in ("C18", "C19"):
    CLAIMS[c] = (M % "TkMachine", "model_checking", TK)
CLAIMS["C03"] = (M % "Scanner", "model_checking",
                 "spec/Scanner.tla reads a text character by character; TLC enumerates every text over several alphabets up to a "
                 "bound behind several beginnings, plus random texts, and prints the segments; the real loader and renderer must "
                 "agree in text, attribute and script position. What an expression is worth is left to Python's eval.")
CLAIMS["C02"] = (M % "HtmlDoc", "model_checking",
                 "spec/HtmlDoc.tla is the stack machine of documents; TLC enumerates every event sequence over five alphabets up to "
                 "a bound, plus random documents, and says which are documents and what they render; the replay writes each in "
                 "several ways (references, quotes, case, white space) and compares the real output or rejection.")
CLAIMS["C14"] = (M % "Faults", "model_checking",
                 "spec/Faults.tla writes templates piece by piece and notes the line ranges of the offending constructs; TLC "
                 "combines some 650 faults with every short context, and with long random ones; the real loader must accept "
                 "exactly the templates without faults, and locate the error of the others in one of the ranges, loaded directly, "
                 "as a string, extended and imported.")
CLAIMS["C13"] = (M % "Buffer", "model_checking",
                 "spec/Buffer.tla gives the contents of buffers under sequences of operations, including objects whose conversion "
                 "fails, outputs or changes; TLC enumerates all sequences over six alphabets up to a bound, plus long random ones; the "
                 "accelerated and the pure-Python buffer are both replayed against it after every operation, and reference counts "
                 "show that nothing is kept alive.")
T = "spec/FileLoader.tla has the files, the clock, the loader and its threads as state; a load is a sequence of small steps between which files change, time passes and other threads load. TLC checks the invariants, enumerates histories and says what each load must give; "
CLAIMS["C11"] = (M % "FileLoader", "model_checking", T + "the histories are replayed on the real FileLoader, trying the points of its code for what happens during a load: contents, exceptions and identity of the templates.")
CLAIMS["C12"] = (M % "FileLoader", "model_checking", T + "the histories are replayed on the real FileLoader with reload, a virtual clock and set modification times, trying the points of its code for what happens during a load: contents and exceptions.")
CLAIMS["C10"] = ("TLA+ specification (spec/Isolation.tla, spec/TkMachine.tla) with TLC; its schedules replayed on the real code", "model_checking",
                 "spec/TkMachine.tla gives the outcome of a rendering as a function of templates and context; spec/Isolation.tla interleaves and orders "
                 "renderings that share templates and loader, and TLC enumerates the schedules, which are replayed with real renderings in threads stopped "
                 "at instructions of the templates, and in histories with failures, kept results and shared contexts.")
CLAIMS["C17"] = (M % "Extract over TkMachine", "model_checking",
                 "spec/Extract.tla defines the messages of a file on its syntax and extends the executions of spec/TkMachine.tla; TLC checks that every "
                 "message an execution looks up is among them, and compares what the real extractors (for Babel from bytes and text, and from a file) "
                 "give for each file of each program with them; the programs are rendered for real, too.")
CLAIMS["C20"] = (M % "PyramidCfg", "model_checking",
                 "spec/PyramidCfg.tla has settings, directives, loaders' caches and files as state; TLC enumerates configurations and histories, checks "
                 "invariants that say of the history alone what the configuration means, and predicts each rendering; the histories are replayed in real "
                 "Pyramid applications through every rendering interface, with the settings spelled in all accepted forms.")
