COST = {}
LIMITS = {
 "C02": "the value of a length read from the file is symbolic; offsets are compared as affine terms, so wrapping arithmetic is excluded by assumption.",
 "C03": "data lengths 1..255, as the emitters' callers produce them; emitters not in use (dead code) are not read.",
 "C04": "record emitters are single steps here; what they write is C03.",
 "C05": "documented directories only; a directory nobody documents is not judged.",
 "C15": "slices of other lengths and path numbers from 384 on (which the two-byte form pinned by the unit tests cannot carry) are not judged.",
 "C07": "the character set as it is: characters outside it have no code and are not judged.",
 "C08": "the functions reachable from the decompiler; panics are not termination failures.",
 "C09": "undocumented token bytes must consume exactly themselves.",
 "C13": "the position of the data inside a sector is the documented header size; a duplicate segment number is unspecified.",
 "C14": "table and occurrence names only: other component kinds are not written by the assembler yet.",
 "B01": "per source file; the merge of several `-c` files is not judged.",
 "B02": "malformed sources beyond unclosed or stray braces are not judged.",
 "B05": "iterators of std over finite collections end; recursion must be shown to shorten its argument, otherwise no answer.",
 "B06": "the lexer's mode for assertions is never entered and not judged.",
 "S02": "a sequence taken from a hash container whose use is not recognised gives no answer.",
 "S03": "paths are judged by where they come from (constant, or input with the fixed extension), not by what the file system makes of them.",
 "V01": "the punctuation stack is left out: it only feeds a warning.",
 "V04": "a loop with an empty body and no exit is the user's; only the position is judged, not termination of tests.",
 "D04": "the comparison is by stored text, as documented by the tests; the path between occurrences (relation_mgr) is taken as given.",
 "E01": "text built-ins (Get, Char) are judged only for which argument they use.",
 "E03": "error handling of malformed calculations is not judged.",
}
