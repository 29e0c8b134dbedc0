"""Small questions about regular expressions, answered from their parse tree."""
import re
import re._parser as sp
import re._constants as sc


def single_char_pattern(pat):
    """(char, lookahead) when the pattern matches exactly one fixed character."""
    try:
        t = list(sp.parse(pat))
    except re.error:
        return None
    if len(t) == 1 and t[0][0] is sc.LITERAL:
        return (chr(t[0][1]), None)
    return None
