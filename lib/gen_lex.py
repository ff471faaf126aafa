"""Texts for the lexer."""
import random

W = '\t\n\x0b\x0c\r \x85\u200e\u200f\u2028\u2029'
S_SOME = '!"#$%&\'()*+,-./:;<=>?@[\\]^`{|}~¡¢£¤¥¦§©«¬®°±¶»¿×÷‐‖†‥′‹›※⁁⁓⁕⁞←↑→⌘─■★☃✂❤➔⟨⤀⦀⨀⬀⸀⸮、。〈〉《》【】〒〔〕〰﴾﴿﹅﹆'
NEAR_W = '\u00a0\u1680\u2000\u2003\u200b\u200c\u200d\u202f\u205f\u3000\ufeff\u180e\x1c\x1f\x00\x7f'
NEAR_S = '_ª²³´·¸¹º¼½¾ˆ˜‿⁀⁔€₣№℠™Ω⅓ⅷ𝄞+＋｛｝＃\u0378'.replace('+', '')
LETTERS = 'aAzZ09éßñαΩжЯאבעربกขあア漢字한글İıǅ𐍈𝒳🤖'
MARKS = '\u0301\u0308\u20dd\u20e3\ufe0f\u093f\u0e33\u1100\u1161\u11a8\U0001f3fd\U0001f1f5\U0001f1f1'
CLUSTERS = ['e\u0301', 'e\u0301\u0308', '👩\u200d👩\u200d👧\u200d👦', '🇵🇱', '🇵🇱🇿🇦', '👍🏽', '1\ufe0f\u20e3', 'नि', 'กำ', '각', '\r\n', '❤\ufe0f',
            '☃\u0301', ' \u0301', '{\u0301', '#\ufe0f\u20e3', '\u2764\ufe0f\u200d\U0001f525']
POOL = [list(W), list(S_SOME), list(NEAR_W), list(NEAR_S), list(LETTERS), list(MARKS), CLUSTERS]
GRAMMARS = ['{}`#', '{', '#', '→', '!"#$%&\'()*+', 'a', 'é{', ' ', '_', '{}', '〈〉', '\u2028', '', '❤', '{a }']


def random_text(rng, n):
    out = ''
    while len(out) < n:
        pool = rng.choice(POOL)
        x = rng.choice(pool)
        out += x * (1 if rng.random() < .7 else rng.randint(2, 4))
    return out


def randoms(rng, count):
    out = []
    for k in range(count):
        n = rng.choice([1, 2, 3, 5, 8, 13, 21, 34, 55, 120])
        out.append({'k': 'lex', 's': random_text(rng, n), 'g': rng.choice(GRAMMARS)})
    out.append({'k': 'lex', 's': '', 'g': '{'})
    out.append({'k': 'lex', 's': '', 'g': ''})
    out.append({'k': 'lex', 's': 'a', 'g': ''})
    return out


def large(rng):
    """Few texts with many or long tokens: positions beyond a byte, and beyond two."""
    texts = ['é' * 9000 + ' b{', '𝒳𝒳𝒳𝒳 ' * 4200, ' ' * 300 + 'a' * 300 + '!' * 300 + '{' * 300 + 'b', '漢 {' * 700, 'e\u0301' * 400 + ' {',
             'x ' * 900, '👩\u200d👩\u200d👧' * 100 + '\r\n' * 200, '{' * 1500] + [random_text(rng, n) for n in (700, 1500, 2500)]
    return [{'k': 'lex', 's': x, 'g': '{}`#'} for x in texts]


def chars(ranges):
    for a, b in ranges:
        for c in range(a, b):
            if not 0xd800 <= c < 0xe000:
                yield chr(c)


#: Blocks with syntax or white space characters, or whose characters look like these.
QUICK = [(0, 0x600), (0x1680, 0x1690), (0x1800, 0x1810), (0x1ff0, 0x2c10), (0x2df0, 0x3130), (0xfd30, 0xfe70), (0xff00, 0x10000),
         (0x1d100, 0x1d130), (0x1f300, 0x1f310), (0x1f600, 0x1f610)]
FULL = [(0, 0x110000)]


def sweep(ranges, size):
    """Every character on its own: each is put between two characters of another class."""
    out, cur = [], []
    for c in chars(ranges):
        cur.append(c)
        if len(cur) == size:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return [{'k': 'lex', 's': ''.join(x), 'g': '{}`#'} for x in out]


def sweep_apart(rng, ranges, size):
    """Characters between an identifier and a white space: the kind of every single one shows."""
    all_chars = list(chars(ranges))
    out = []
    for i in range(0, len(all_chars), size):
        out.append({'k': 'lex', 's': ''.join('a%s ' % c if k % 2 else 'b %s' % c for k, c in enumerate(all_chars[i:i + size])),
                    'g': rng.choice(['{}`#', '{', '→'])})
    return out
