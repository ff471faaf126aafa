"""Languages, of which the script is asked."""
import re

LIVING = ('Adlm Arab Armn Bali Beng Bopo Cakm Cans Cher Cyrl Deva Ethi Geor Grek Gujr Guru Hans Hant Hebr Hira Java Jpan Kana Khmr Knda Kore '
          'Lana Laoo Latn Lisu Mlym Mong Mtei Mymr Nkoo Olck Orya Rohg Sinh Sund Syrc Taml Telu Tfng Thaa Thai Tibt Vaii Yiii').split()
OTHER = ('Afak Aran Blis Cirt Egyd Egyh Inds Jurc Kpel Leke Loma Maya Moon Nkgb Piqd Qaaa Qabx Roro Sara Sayl Teng Visp Wole Zinh Zmth Zsye Zsym '
         'Zxxx Zyyy Zzzz Latx Abcd').split()
LANGS = ('aa ab af ak am ar as av ay az ba be bg bh bi bm bn bo br bs ca ce ch co cr cs cu cv cy da de dv dz ee el en eo es et eu fa ff fi fj fo fr '
         'fy ga gd gl gn gu gv ha he hi ho hr ht hu hy hz ia id ig ii ik io is it iu ja jv ka kg ki kj kk kl km kn ko kr ks ku kv kw ky la lb lg li '
         'ln lo lt lu lv mg mh mi mk ml mn mr ms mt my na nb nd ne ng nl nn no nr nv ny oc oj om or os pa pi pl ps pt qu rm rn ro ru rw sa sc sd se '
         'sg si sk sl sm sn so sq sr ss st su sv sw ta te tg th ti tk tl tn to tr ts tt tw ty ug uk ur uz ve vi vo wa wo xh yi yo za zh zu arc chr '
         'cop egy got grc haw hmn jrb khb lad mni nqo phn rhg sat syr tdd tzm und vai yue zgh zun qqq xzz').split()
REGIONS = ['', '', '', '-ZA', '-CN', '-TW', '-IR', '-IN', '-PK', '-RS', '-MN', '-AZ', '-419']


def known():
    text = open(__file__.replace('lib/gen_script.py', 'spec/Scripts.tla')).read()
    return sorted(set(re.findall(r'"([A-Z][a-z]{3})"', text)))


def scenarios(rng, count):
    scripts = sorted(set(known() + OTHER + LIVING))
    tags = ['und-' + x for x in scripts] + LANGS
    tags += [rng.choice(LANGS) + '-' + rng.choice(scripts) for _ in range(count)]
    tags += [rng.choice(LANGS) + rng.choice(['', '-' + rng.choice(scripts)]) + rng.choice(REGIONS) for _ in range(count)]
    tags = list(dict.fromkeys(tags))
    living = ['und-' + x for x in LIVING]
    out = []
    for i in range(0, len(tags), 60):
        steps = []
        for t in tags[i:i + 60]:
            if rng.random() < .3:
                steps += [{'op': 'defaults', 't': t, 'fb': None, 'ca': None}, {'op': 'script'}]
            else:
                steps.append({'op': 'scriptfor', 't': t})
            if rng.random() < .1:
                steps.append({'op': 'script'})
        out.append({'k': 'loc', 'db': {'rows': [['c', 'i', 'en', 'A']], 'def': {'c': 'en'}}, 'tag': rng.choice(tags), 'fb': True, 'ca': False,
                    'steps': steps, 'living': [t for t in living if t in tags[i:i + 60]]})
    return out
