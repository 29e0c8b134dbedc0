"""property id -> (rules module, function, what the check does)."""
RULES = {
    "C01": ("parser_rules", "c01",
            "abstract interpretation of the parser from its public entry points over a symbolic source string; "
            "every exception state is propagated to the entry point"),
    "C02": ("parser_rules", "c02",
            "abstract interpretation of the parser; ranking measure per while loop over all abstract back edges, "
            "consumption on recursive call edges, cursor bounds on return"),
    "C03": ("parser_ast", "c03",
            "abstract interpretation of the parser over a symbolic source; at every AST node construction and span "
            "assignment the span bounds are compared with the cursor, with the children and with the source characters "
            "at the two edges"),
    "C04": ("parser_ast", "c04",
            "abstract interpretation of the parser; content, span, annotation and resume position of every Junk state"),
    "C05": ("parser_ast", "c05",
            "abstract interpretation of the parser; inclusion of every leaf field's abstract string in the regular "
            "language of its token"),
    "C06": ("parser_ast", "c06",
            "abstract interpretation of the parser; type and shape of every AST field at every construction"),
    "C09": ("serial_rules", "c09",
            "abstract interpretation of the serializer on every kind of node in every position with symbolic texts; each "
            "output is matched against a template of the Fluent syntax for the tree"),
    "C10": ("serial_rules", "c10",
            "dataflow of every symbolic text of the tree through the serializer: operations that depend on anything but "
            "line feeds taint the text they touch"),
    "C11": ("ast_rules", "c11",
            "effect analysis: the heap below every tree before and after each reading operation, by abstract interpretation "
            "on every shape of every node class; aliasing between a clone and its original"),
    "C12": ("ast_rules", "c12",
            "abstract interpretation of constructors, clone, to_json and from_json on every shape of every node class with "
            "symbolic leaves; field by field comparison"),
    "C13": ("ast_rules", "c13",
            "abstract interpretation of equals on pairs of symbolic trees; the leaf equalities assumed on each path decide "
            "what it has to answer"),
    "C14": ("ast_rules", "c14",
            "abstract interpretation of Visitor and Transformer with symbolic handler results on every shape of every node "
            "class; the nodes reached and the tree left behind are compared with the plan"),
    "C20": ("rt_rules", "c20",
            "abstract interpretation of format_pattern and of every evaluator on symbolic nodes and environments; every "
            "exception a child, a formatter or a custom function may raise is propagated"),
    "C21": ("rt_rules", "c21",
            "abstract interpretation of every evaluator; every exit that yields a fallback is checked for a report to the "
            "error list of the call"),
    "C22": ("rt_rules", "c22",
            "typestate analysis of the active-pattern marks over all paths of every evaluator, with and without the "
            "pattern already active"),
    "C23": ("rt_rules", "c23",
            "abstract interpretation with linear constraints over the part counter of every evaluator"),
    "C24": ("rt_rules", "c24",
            "dataflow analysis of the arguments in force at every evaluation of a child and on every exit"),
    "C25": ("rt_rules", "c25",
            "abstract interpretation of string results; isolation marks in every abstract return value"),
    "C26": ("select_rules", "c26",
            "abstract interpretation of the select evaluator for every kind of selector and key over symbolic variants; "
            "the comparisons on each path decide which variant has to be taken"),
    "C27": ("bundle_rules", "c27",
            "abstract interpretation of the bundle over every history of additions, lookups and references up to a length; "
            "what each read yields is compared with the definition in force"),
    "C28": ("bundle_rules", "c28",
            "abstract interpretation of the bundle over every history of additions, lookups and references up to a length, "
            "followed by lookups of the term's spelling and of an arbitrary identifier"),
    "C29": ("types_rules", "c29",
            "effect analysis of creating and formatting every kind of number and date with every option; the options of "
            "the result are compared with the options given and inherited"),
    "C30": ("types_rules", "c30",
            "dataflow from every kind of argument through format_pattern (and fluent_number/fluent_date) to the value the "
            "pattern sees"),
    "C31": ("types_rules", "c31",
            "dependence analysis: traces of library calls made when formatting, compared between values of each option "
            "and under each other option; rejection and warnings by abstract interpretation of the constructors"),
    "C32": ("fallback_rules", "c32",
            "abstract interpretation of localizations over every history of requests and every behaviour of the loader and "
            "the bundles up to small bounds, with suspended generators; each answer is compared with the fallback order"),
    "C33": ("fallback_rules", "c33",
            "abstract interpretation of the file loader over every state of the file system and every failing read for small "
            "lists of roots and names; typestate of the opened files"),
    "C34": ("rt_rules", "c34",
            "effect analysis of every evaluator and of format_pattern: writes to anything not created by the call"),
    "C35": ("rt_rules", "c35",
            "abstract interpretation of the compiler on a symbolic node of every syntax class the grammar allows"),
}

TECH = {}

LEVEL_NOTE = {
    "*": "Static analysis over the current source. Every rule enumerates its obligations from the tree; an obligation "
         "the rule cannot decide is listed as undecided in the evidence and raises no alarm.",
    "ast_rules": "Abstract interpretation on exact tree shapes (every alternative of every field, lists of up to three, to depth "
                 "three) whose leaves are arbitrary; bounded in the shape, not in the contents.",
    "serial_rules": "Abstract interpretation on exact tree shapes whose texts are sequences of arbitrary runs without line "
                    "feed; bounded in the shape and the number of runs, not in their contents.",
    "select_rules": "Abstract interpretation of the select evaluator on lists of up to three symbolic variants (the "
                    "scan treats variants alike), for each pair of selector and key type; sound modulo the library models.",
    "bundle_rules": "Abstract interpretation of histories of operations on a bundle whose definitions are symbolic, "
                    "exhaustive up to the length given in the evidence; bounded in the length of the history.",
    "fallback_rules": "Abstract interpretation on symbolic locales, roots, names, loaders and bundles in lists of exact "
                      "small length (see the evidence); exhaustive over their behaviour within those lengths, not beyond.",
    "types_rules": "Abstract interpretation of the conversions, the option classes and the format methods on any value of "
                   "each kind; babel is opaque. Sound modulo the library models in sa/m_*.py.",
    "rt_rules": "Modular abstract interpretation: each evaluator on an arbitrary compiled node and an arbitrary "
                "environment, children taken as opaque steps that may return anything or raise; the induction over the "
                "tree closes the argument. Sound modulo the library models in sa/m_*.py.",
    "parser_ast": "Path-sensitive abstract interpretation of the parser to a fixpoint for every source string; sound "
                  "modulo the library models in sa/m_*.py. Obligations the abstraction cannot decide are listed as "
                  "undecided.",
    "parser_rules": "Path-sensitive abstract interpretation of the parser to a fixpoint (numeric constraints, "
                    "character sets, heap of AST nodes) for every source string; sound modulo the library models in "
                    "sa/m_*.py. Obligations the abstraction cannot decide are listed as undecided.",
}

NOT_APPLICABLE = {}
