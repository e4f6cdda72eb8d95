na("X01", "Character classes and comparisons are those of ASCII and the RFCs",
   "Every predicate of ascii (digits, letters, spaces, tokens, URL and JSON classes) is true for exactly the chars of its class, and the comparisons ignore case exactly for letters, for every value of a char.",
   ["inputs"], "all 256 chars and all pairs of strings",
   "The tests sample a few chars.",
   ["src/ascii.h"], [("classes", "src/ascii.h")],
   "Pure functions of their arguments: no scheduling, time, I/O, randomness or other party for a simulator to control. What depends on them is decided through H01 to H04, J01 to J05 and E01 to E03, whose oracles classify chars independently.")
na("X02", "Sizes, tags and categories are the constants they are named after",
   "The constants for sizes, severities, categories and message ids have the values their names say and no two log tags mean the same place.",
   ["inputs"], "all constants",
   "No test lists them all.",
   ["src/size.h", "src/tag.h"], [("constants", "src/size.h; src/tag.h")],
   "Compile-time constants: nothing is executed that a simulator could schedule or disturb.")
