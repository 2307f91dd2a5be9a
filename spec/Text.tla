-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Frequency tables, n-gram supports of TF-IDF vectors, and the text       *)
(* normalisation, on texts abstracted to sequences of small integers.      *)
(***************************************************************************)
EXTENDS Sampling, TLC
(* ---- frequency table: lab is a sequence of labels, tab a sequence of    *)
(* <<label, numerator, denominator>> of the frequency                       *)
Count(lab, v) == Cardinality({i \in DOMAIN lab : lab[i] = v})
FreqKeys(lab, tab) == /\ {tab[i][1] : i \in DOMAIN tab} = {lab[i] : i \in DOMAIN lab}
                      /\ \A i \in 1 .. (Len(tab) - 1) : tab[i][1] < tab[i + 1][1]
FreqValues(lab, tab) ==
  \A i \in DOMAIN tab : tab[i][2] * Len(lab) = Count(lab, tab[i][1]) * tab[i][3]
(* ---- TF-IDF: a text is a sequence of words (integers > 0)               *)
Grams(t) == UNION {{SubSeq(t, i, i + n) : i \in 1 .. (Len(t) - n)} : n \in 0 .. 2}
AllGrams(texts) == [i \in DOMAIN texts |-> Grams(texts[i])]
(* from here on gs = AllGrams(texts), df = DocFreq(gs)                     *)
DocFreq(gs) == [g \in UNION {gs[i] : i \in DOMAIN gs} |-> Cardinality({i \in DOMAIN gs : g \in gs[i]})]
Vocabulary(df) == {g \in DOMAIN df : df[g] >= 2}
(* weight of an n-gram: its count in the text times its inverse document   *)
(* frequency 1 + ln((1 + n) / (1 + df)), tabulated (times 1000) in idf      *)
GramCount(t, g) == Cardinality({i \in 1 .. (Len(t) - Len(g) + 1) : SubSeq(t, i, i + Len(g) - 1) = g})
(* got: the non-zero coordinates of a text (times 10000), in decreasing    *)
(* order: proportional to the weights of its supported n-grams             *)
WeightsOK(t, support, df, idf, got) ==
  LET S == SetToSeq(support)
      W == SortSeq(TLCEval([j \in DOMAIN S |-> GramCount(t, S[j]) * idf[df[S[j]]]]), LAMBDA a, b : a > b)
  IN Len(got) = Len(W) /\ \A j \in DOMAIN W :
       LET x == got[j] * (W[1] \div 10)  y == got[1] * (W[j] \div 10)
           slack == 3 * W[1] + 30 * got[1]
       IN x - y <= slack /\ y - x <= slack
(* ---- vectors of a language model: the mean of the words' vectors       *)
MeanVecOK(t, wv, v) ==       \* v is scaled by 720720, t non-empty
  /\ Len(v) = Len(wv[1])
  /\ \A i \in 1 .. Len(v) :
       LET S == FoldSeq(LAMBDA w, s : s + wv[w][i], 0, t)
           d == v[i] * Len(t) - S * 720720
       IN d <= 2 * Len(t) /\ -d <= 2 * Len(t)      \* rounding of float32 means
(* ---- preprocessing of a text given as a sequence of code points         *)
(* chars: <<code, lower case, base letters, is it a space>>                *)
(* words: <<word, is it a stop word, is it punctuation, lemma>>            *)
Listed == {46, 44, 59, 58, 33, 161, 63, 191, 8230, 8226, 40, 41, 123, 125, 91, 93,
           171, 187, 94, 96, 39, 34, 92, 47, 124, 45, 95, 35, 38, 126, 64}
CharRow(chars, c) == chars[CHOOSE i \in DOMAIN chars : chars[i][1] = c]
WordRow(words, w) == words[CHOOSE i \in DOMAIN words : words[i][1] = w]
Lower(chars, t) == FlattenSeq([i \in DOMAIN t |-> CharRow(chars, t[i])[2]])
Blanked(t) == [i \in DOMAIN t |-> IF t[i] \in Listed THEN 32 ELSE t[i]]
IsSpace(chars, c) == c = 32 \/ CharRow(chars, c)[4]
SplitWords(chars, t) ==      \* maximal runs of non-space characters
  LET step(acc, c) == IF IsSpace(chars, c)
                      THEN IF acc.cur = <<>> THEN acc ELSE [ws |-> Append(acc.ws, acc.cur), cur |-> <<>>]
                      ELSE [acc EXCEPT !.cur = Append(@, c)]
      r == FoldLeft(step, [ws |-> <<>>, cur |-> <<>>], t)
  IN IF r.cur = <<>> THEN r.ws ELSE Append(r.ws, r.cur)
(* the dependency tree of the language model built by the harness          *)
RECURSIVE TreeDepth(_)
TreeDepth(i) == IF i = 0 \/ i % 7 = 6 THEN 0
                ELSE IF i < 3 \/ i % 5 = 0 THEN 1
                ELSE 1 + TreeDepth(i - 2)
Bases(chars, t) == FlattenSeq([i \in DOMAIN t |-> IF t[i] = 32 THEN <<32>> ELSE CharRow(chars, t[i])[3]])
RECURSIVE JoinWords(_)
JoinWords(ws) == IF ws = <<>> THEN <<>>
                 ELSE IF Len(ws) = 1 THEN ws[1]
                 ELSE ws[1] \o <<32>> \o JoinWords(Tail(ws))
KeptWords(words, ws, sw, pf) ==      \* indices kept, in order
  SelectSeq([i \in DOMAIN ws |-> i],
            LAMBDA i : LET r == WordRow(words, ws[i]) IN
                       /\ ~ r[3]
                       /\ (sw => ~ r[2])
                       /\ (pf => TreeDepth(i - 1) <= 1))
Preprocessed(text, chars, words, sw, pf, le) ==
  LET ws == SplitWords(chars, Blanked(Lower(chars, text)))
      kept == KeptWords(words, ws, sw, pf)
      shown == [i \in DOMAIN kept |-> IF le THEN WordRow(words, ws[kept[i]])[4] ELSE ws[kept[i]]]
  IN Bases(chars, JoinWords(shown))
=============================================================================
