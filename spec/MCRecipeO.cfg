SPECIFICATION Spec
CONSTANTS
 Chars = {34, 92, 58, 64, 97, 98, 91, 93}
 N = 7
 Prefix <- Opt0
INVARIANTS OptionOk
