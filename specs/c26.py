"""C26: buffers hold only what may still be needed."""
from engine.spec import *
from specs import c14, c15, c17
LEVEL = "proof"
RULE = ("Inductive invariant of the buffer shared by the two halves of a split reader: some live half is at its front (position 0), so nothing is kept that every live half has read, and a dropped half is at the reserved position, which holds nothing back. "
        "Established by split(); preserved by next_symbol of either half and by Drop, both alive or either one dropped, for any number of symbols held back and any positions. Symbolic over buffer length and positions; loops summarised. "
        "Tokenizer: with the tape and the matcher replaced by their contracts (C12 to C14), every path of next_token and next_symbol that returns a token leaves the last cut of the tape at the token's end, for all positions and lengths. "
        "Tape: no method makes the ring larger than four times what can still be rewound to (plus eight), unless it was larger before, in all layouts of the ring.")
def check(S): c17.check(S, True); c15.check(S, True); c14.check(S, keep=True)
