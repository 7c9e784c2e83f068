from base import PROPS, TRUSTED
import p_words
import p_morph
import p_class
import p_span
import p_parse
import p_error
import p_total


def freeze(S, names):
    for m in (p_morph, p_words, p_class, p_parse):
        if not names or m.__name__ in names:
            m.freeze(S)
    return 0
