"""Texts with symbolic numbers: each digit (or letter) that depends on a symbolic integer
is a character that stands for it; the equality of two texts is a formula on these
characters."""

import unicodedata

from symx.core import is_sym, land

DIGITS = [
    chr(c) for c in range(0x0660, 0x1FBFA)
    if unicodedata.category(chr(c)) == "Nd" and chr(c).isdigit()
]
FIRST_LETTER = 0x4E00  # CJK: letters without capitals


class Texts:
    def __init__(self, eng):
        self.eng = eng
        self.terms = {}  # character -> digit (0 to 9) or letter (0 to 25)
        self.known = []  # (integer, format, text)
        self.nb = 0

    def new(self, term, digit):
        self.nb += 1
        char = DIGITS[self.nb] if digit else chr(FIRST_LETTER + self.nb)
        self.terms[char] = term
        return char

    def already(self, kind, value):
        # two equal numbers are written in the same way
        for other, kind_, text in self.known:
            if kind_ == kind and (value is other or bool(value == other)):
                return text
        return None

    def decimal(self, value, spec):
        """format(value, spec)"""
        assert spec == "" or (spec[0] == "0" and spec[-1] == "d") or spec == "d", spec
        width = int(spec.strip("d") or 0)
        if bool(value < 0):
            raise self.eng.cut("negative index")
        text = self.already("decimal", value)
        if text is None:
            nb_digits = 1
            while bool(value >= 10**nb_digits):
                nb_digits += 1
            chars = []
            for k in reversed(range(nb_digits)):
                digit = (value // 10**k) % 10 if k < nb_digits - 1 else value // 10**k
                chars.append(self.new(digit, True))
            text = "".join(chars)
            self.known.append((value, "decimal", text))
        return "0" * (width - len(text)) + text

    def chr(self, code):
        """builtin chr"""
        if not is_sym(code):
            return chr(code)
        text = self.already("letter", code)
        if text is None:
            self.eng.check((code >= 97) & (code <= 122), "letters", "not a letter")
            text = self.new(code - 97, False)
            self.known.append((code, "letter", text))
        return text

    def char_equal(self, a, b):
        ta, tb = self.terms.get(a), self.terms.get(b)
        if ta is None and tb is None:
            return a == b
        if ta is not None and tb is not None:
            return ta == tb if a.isdigit() == b.isdigit() else False
        if ta is None:
            a, b, ta = b, a, tb
        # b is an ordinary character
        if a.isdigit():
            return ta == int(b) if b in "0123456789" else False
        code = ord(b.lower()) - 97
        return ta == code if 0 <= code < 26 else False

    def equal(self, a, b):
        if len(a) != len(b):
            return False
        return land(*[self.char_equal(x, y) for x, y in zip(a, b)])
