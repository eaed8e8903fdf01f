"""What a numeric expression means: an independent evaluation with exact arithmetic."""
import re
from fractions import Fraction

DIGITS = {c: i for i, c in enumerate('0123456789')}
DIGITS.update({c: i for i, c in enumerate('〇一二三四五六七八九')})
SMALL = {'十': 1, '百': 2, '千': 3}
LARGE = {'万': 4, '億': 8, '兆': 12}
ALPHABET = ''.join(DIGITS) + ''.join(SMALL) + ''.join(LARGE) + ',.'

STRICT = re.compile(r'(?:D+|D{1,3}(?:,DDD)+)(?:\.D+)?$')


def numeral_kind(n):
    """n: digits, commas and points without units -> 'ok', 'bad' or 'odd' (malformed, but nobody says what happens)"""
    shape = ''.join('D' if c in DIGITS else c for c in n)
    if STRICT.match(shape):
        if ',' in shape and all(DIGITS[c] == 0 for c in n.split(',')[0]):
            return 'bad'
        return 'ok'
    return 'odd'


def evaluate(s):
    """-> (verdict, value): verdict 'accept', 'reject' or 'either'; the value of what may be accepted."""
    if not s:
        return 'either', Fraction(0)
    sections = []       # (pieces, large)
    pieces = []         # (numeral, small)
    n = ''
    for c in s:
        if c in SMALL:
            pieces.append((n, SMALL[c]))
            n = ''
        elif c in LARGE:
            if n:
                pieces.append((n, 0))
            sections.append((pieces, LARGE[c]))
            pieces, n = [], ''
        else:
            n += c
    if n:
        pieces.append((n, 0))
    if pieces:
        sections.append((pieces, 0))
    verdict = 'accept'
    if s[0] in ',.' or s[-1] in ',.':
        return 'reject', None
    value = Fraction(0)
    low = None          # lowest digit position written so far in the whole number
    for pieces, large in sections:
        if not pieces:
            return 'reject', None
        slow = None
        high = None
        for n, small in pieces:
            last = small == 0 and large == 0
            if n:
                kind = numeral_kind(n)
                if kind == 'bad':
                    return 'reject', None
                if kind == 'odd':
                    if definitely_bad(n, last):
                        return 'reject', None
                    verdict = 'either'
                digits = n.replace(',', '')
                if '.' in digits:
                    whole, frac = digits.split('.', 1)
                else:
                    whole, frac = digits, ''
                if not whole or '.' in frac:
                    return 'reject', None
                number = Fraction(int(''.join(str(DIGITS[c]) for c in whole + frac)), 10 ** len(frac))
                hi, lo = small + len(whole) - 1, small - len(frac)
            else:
                number, hi, lo = Fraction(1), small, small
            if slow is not None and hi >= max(slow, 0):
                return 'reject', None
            if high is None:
                high = hi
            slow = lo
            value_piece = number * 10 ** small * 10 ** large
            value += value_piece
        hi, lo = high + large, slow + large
        if low is not None and hi >= max(low, 0):
            return 'reject', None
        low = lo
    return verdict, value


def definitely_bad(n, last):
    """Malformed numerals that must not be accepted: the rest of the malformed ones is left open."""
    if n.count('.') > 1 or n[0] in ',.' or ',,' in n:
        return True
    whole, point, frac = n.partition('.')
    if ',' in frac:
        return False
    groups = whole.split(',')
    if len(groups) > 1:
        if len(groups[0]) > 3 or all(DIGITS[c] == 0 for c in groups[0]):
            return True
        if any(len(g) != 3 for g in groups[1:-1]):
            return True
        if (point or last) and len(groups[-1]) != 3:
            return True
    return False


FORM = re.compile(r'\d+(?:\.\d*[1-9])?$')
