------------------------------ MODULE Scripts ------------------------------
(***************************************************************************)
(* Data of the scripts (ISO 15924): kind of writing system, whether it is  *)
(* only of historic interest, and the directions in which it is written,   *)
(* the usual one first.  A direction names that of the lines, then that of *)
(* the text within a line.                                                 *)
(***************************************************************************)
EXTENDS TLC
TL == "TopToBottomLeftToRight"
TR == "TopToBottomRightToLeft"
BL == "BottomToTopLeftToRight"
BR == "BottomToTopRightToLeft"
LT == "LeftToRightTopToBottom"
LB == "LeftToRightBottomToTop"
RT == "RightToLeftTopToBottom"
RB == "RightToLeftBottomToTop"

ByCategory ==
  [Abjad |->
     {"Arab", "Armi", "Chrs", "Elym", "Hatr", "Hebr", "Mani", "Narb", "Nbat", "Palm", "Phli",
     "Phlp", "Phlv", "Phnx", "Prti", "Samr", "Sarb", "Sogd", "Sogo", "Syrc", "Syre", "Syrj",
     "Syrn", "Tfng", "Ugar", "Yezi"},
   Abugida |->
     {"Ahom", "Bali", "Batk", "Beng", "Bhks", "Brah", "Bugi", "Buhd", "Cakm", "Cans", "Cham",
     "Deva", "Diak", "Dogr", "Ethi", "Gong", "Gonm", "Gran", "Gujr", "Gukn", "Guru", "Hano",
     "Java", "Kawi", "Khar", "Khmr", "Khoj", "Knda", "Krai", "Kthi", "Lana", "Laoo", "Lepc",
     "Limb", "Mahj", "Maka", "Marc", "Merc", "Mero", "Mlym", "Modi", "Mtei", "Mult", "Mymr",
     "Nand", "Newa", "Orya", "Plrd", "Rjng", "Saur", "Shrd", "Sidd", "Sind", "Sinh", "Soyo",
     "Sund", "Sylo", "Tagb", "Takr", "Tale", "Talu", "Taml", "Tavt", "Tayo", "Telu", "Tglg",
     "Thaa", "Thai", "Tibt", "Tirh", "Tutg", "Zand"},
   Alphabetic |->
     {"Adlm", "Aghb", "Armn", "Avst", "Bass", "Bopo", "Brai", "Cari", "Copt", "Cyrl", "Cyrs",
     "Dsrt", "Elba", "Gara", "Geok", "Geor", "Glag", "Goth", "Grek", "Hang", "Hung", "Ital",
     "Jamo", "Kali", "Kore", "Latf", "Latg", "Latn", "Lisu", "Lyci", "Lydi", "Mand", "Medf",
     "Mong", "Mroo", "Nagm", "Nkoo", "Ogam", "Olck", "Onao", "Orkh", "Osge", "Osma", "Ougr",
     "Pauc", "Perm", "Phag", "Rohg", "Runr", "Shaw", "Sora", "Sunu", "Tnsa", "Todr", "Toto",
     "Vith", "Wara", "Wcho"},
   Logographic |->
     {"Egyp", "Hanb", "Hani", "Hans", "Hant", "Hluw", "Kits", "Sgnw", "Tang", "Xsux"},
   Special |->
     {"Dupl"},
   Syllabic |->
     {"Bamu", "Cher", "Cpmn", "Cprt", "Hira", "Hmng", "Hmnp", "Hrkt", "Jpan", "Kana", "Lina",
     "Linb", "Mend", "Nshu", "Vaii", "Xpeo", "Yiii"}]

Historic ==
     {"Aghb", "Ahom", "Armi", "Avst", "Bass", "Bhks", "Brah", "Cari", "Chrs", "Copt", "Cpmn",
     "Cprt", "Diak", "Dogr", "Egyp", "Elba", "Elym", "Glag", "Goth", "Hatr", "Hluw", "Hung",
     "Ital", "Kawi", "Khar", "Khoj", "Kits", "Kthi", "Lina", "Linb", "Lyci", "Lydi", "Mahj",
     "Maka", "Mani", "Marc", "Merc", "Mero", "Modi", "Mult", "Nand", "Narb", "Nbat", "Newa",
     "Nshu", "Ogam", "Orkh", "Osma", "Ougr", "Palm", "Pauc", "Perm", "Phag", "Phli", "Phlp",
     "Phlv", "Phnx", "Prti", "Runr", "Samr", "Sarb", "Sidd", "Sogd", "Sogo", "Soyo", "Tang",
     "Tayo", "Ugar", "Vith", "Xpeo", "Xsux", "Zand"}

ByDirections ==
  {[d |-> <<TL>>, s |->
     {"Aghb", "Ahom", "Armn", "Bali", "Bamu", "Bass", "Batk", "Beng", "Bhks", "Brah", "Brai",
     "Bugi", "Buhd", "Cakm", "Cans", "Cham", "Cher", "Copt", "Cpmn", "Cyrl", "Cyrs", "Deva",
     "Diak", "Dogr", "Dsrt", "Dupl", "Elba", "Ethi", "Geok", "Geor", "Glag", "Gong", "Gonm",
     "Goth", "Gran", "Gujr", "Gukn", "Guru", "Hmng", "Hmnp", "Java", "Kali", "Kawi", "Khmr",
     "Khoj", "Knda", "Krai", "Kthi", "Lana", "Laoo", "Latf", "Latg", "Latn", "Lepc", "Limb",
     "Lina", "Linb", "Lisu", "Lyci", "Mahj", "Maka", "Marc", "Medf", "Mlym", "Modi", "Mroo",
     "Mtei", "Mult", "Mymr", "Nagm", "Nand", "Newa", "Olck", "Onao", "Orya", "Osge", "Osma",
     "Pauc", "Perm", "Plrd", "Rjng", "Saur", "Shaw", "Shrd", "Sidd", "Sind", "Sinh", "Sora",
     "Soyo", "Sund", "Sunu", "Sylo", "Tagb", "Takr", "Tale", "Talu", "Taml", "Tavt", "Telu",
     "Tglg", "Thai", "Tibt", "Tirh", "Tnsa", "Todr", "Toto", "Tutg", "Ugar", "Vaii", "Vith",
     "Wara", "Wcho", "Xpeo", "Xsux", "Yiii", "Zand"}],
   [d |-> <<TR>>, s |->
     {"Adlm", "Arab", "Armi", "Avst", "Chrs", "Cprt", "Elym", "Gara", "Hatr", "Hebr", "Hung",
     "Khar", "Lydi", "Mand", "Mani", "Mend", "Merc", "Mero", "Narb", "Nbat", "Nkoo", "Orkh",
     "Palm", "Phli", "Phlp", "Phlv", "Phnx", "Prti", "Rohg", "Samr", "Sarb", "Syrc", "Syre",
     "Syrj", "Syrn", "Thaa", "Yezi"}],
   [d |-> <<RT, TL>>, s |->
     {"Hani", "Hans", "Hant", "Hira", "Hrkt", "Jamo", "Jpan", "Kana", "Tang", "Tayo"}],
   [d |-> <<TL, TR>>, s |->
     {"Bopo", "Cari", "Egyp", "Grek", "Runr"}],
   [d |-> <<LT, TR>>, s |->
     {"Ougr", "Sogd", "Sogo"}],
   [d |-> <<RT>>, s |->
     {"Kits", "Nshu"}],
   [d |-> <<RT, TL, LT>>, s |->
     {"Hang", "Kore"}],
   [d |-> <<BL, BR, TL>>, s |->
     {"Hano"}],
   [d |-> <<BL, TL>>, s |->
     {"Ogam"}],
   [d |-> <<LT>>, s |->
     {"Phag"}],
   [d |-> <<LT, TL>>, s |->
     {"Mong"}],
   [d |-> <<RB, RT, BR, TR, TL>>, s |->
     {"Tfng"}],
   [d |-> <<TL, LT>>, s |->
     {"Sgnw"}],
   [d |-> <<TL, TR, LT>>, s |->
     {"Hluw"}],
   [d |-> <<TL, TR, RT, LT>>, s |->
     {"Hanb"}],
   [d |-> <<TR, TL>>, s |->
     {"Ital"}]}

Known == UNION {ByCategory[c] : c \in DOMAIN ByCategory}
CategoryOf(s) == CHOOSE c \in DOMAIN ByCategory : s \in ByCategory[c]
DirectionsOf(s) == (CHOOSE x \in ByDirections : s \in x.s).d
ScriptData == [s \in Known |-> <<CategoryOf(s), s \in Historic, DirectionsOf(s)>>]

\* Every script has one category and one list of directions.
ASSUME \A a, b \in DOMAIN ByCategory : a # b => ByCategory[a] \intersect ByCategory[b] = {}
ASSUME \A a, b \in ByDirections : a # b => a.s \intersect b.s = {}
ASSUME Known = UNION {x.s : x \in ByDirections} /\ Historic \subseteq Known
=============================================================================
