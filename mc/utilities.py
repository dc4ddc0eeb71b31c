"""Properties C26, C27, C28: frequencies, vectorization, preprocessing."""
import contextlib
import io
import itertools
import math
import os
import re
import shutil
import tempfile
import unicodedata
from collections import Counter
from fractions import Fraction

import numpy as np

from . import common
from .common import Res, call, lib, parallel


# ------------------------------------------------------------------------------------------------ C26
def c26_case(case, res):
    f = lib("utils.frequency").compute_clusters_frequency
    d = {k: v for k, v in case["clusters"]}
    d0 = list(d.items())
    st, r = call(f, clustering_result=d)
    res.add(states=1, transitions=1, traces=1)
    if st != "ok":
        return res.problem(case, "frequencies of %r: %s %s" % (d, st, r))
    cnt = Counter(d.values())
    n = len(d)
    if not isinstance(r, dict) or set(r) != set(cnt):
        return res.problem(case, "frequencies of %r are given for %r" % (d, r))
    for c, k in cnt.items():
        if isinstance(r[c], bool) or not isinstance(r[c], (int, float)) or abs(r[c] - k / n) > 1e-12:
            return res.problem(case, "frequency of %r in %r is %r instead of %d/%d" % (c, d, r[c], k, n))
    if n and abs(sum(r.values()) - 1) > 1e-9:
        return res.problem(case, "frequencies %r sum to %r" % (r, sum(r.values())))
    if list(d.items()) != d0:
        return res.problem(case, "the clustering result was modified")
    res.outcome(tuple(sorted(r.items())))


def c26_cases(tier):
    T = tier == "thorough"
    L = (-2, -1, 0, 1, 5)
    for n in range(0, 8 if T else 7):
        ids = ["b", "10", "", "é", "9", "a", "-1"][:n]
        for v in itertools.product(L[: 5 if n < 7 else 4], repeat=n):
            yield {"clusters": [[i, x] for i, x in zip(ids, v)]}
    for n in (10, 37, 100, 1000, 2500):
        for q in (1, 2, 3, 7, n):
            yield {"clusters": [[str(i), (i * i) % q - 1] for i in range(n)]}
            yield {"clusters": [[str(i), 0 if i else 1] for i in range(n)]}


# ------------------------------------------------------------------------------------------------ C27
def ngrams(text):
    w = re.findall(r"(?u)\b\w\w+\b", str(text).lower())
    return [" ".join(w[i:i + k]) for k in (1, 2, 3) for i in range(len(w) - k + 1)]


def tfidf_reference(texts):
    """{id: {ngram: weight}} from the definition (smooth idf, l2 norm, n-grams of at least two texts)."""
    grams = {i: Counter(ngrams(t)) for i, t in texts.items()}
    df = Counter(g for c in grams.values() for g in c)
    voc = sorted(g for g in df if df[g] >= 2)
    n = len(texts)
    out = {}
    for i, c in grams.items():
        v = [c[g] * (math.log((1 + n) / (1 + df[g])) + 1) for g in voc]
        norm = math.sqrt(sum(x * x for x in v))
        out[i] = [x / norm if norm else 0.0 for x in v]
    return voc, out


def rows(res, case, got, texts):
    if not isinstance(got, dict) or set(got) != set(texts) or len(got) != len(texts):
        res.problem(case, "vectors are given for %r instead of %r" % (sorted(got), sorted(texts)))
        return None
    out = {}
    for i, v in got.items():
        a = np.asarray(v.toarray() if hasattr(v, "toarray") else v, dtype=float)
        if a.ndim != 2 or a.shape[0] != 1:
            res.problem(case, "the vector of %r has shape %r" % (i, a.shape))
            return None
        out[i] = a[0]
    if len({len(a) for a in out.values()}) > 1:
        res.problem(case, "vectors have different widths")
        return None
    return out


def columns(rows_, order):
    return sorted(tuple(round(float(x), 9) + 0.0 for x in col) for col in zip(*(rows_[i] for i in order)))


def close_columns(a, b):
    return len(a) == len(b) and all(np.allclose(x, y, atol=1e-7) for x, y in zip(a, b))


def c27_case(case, res):
    f = lib("utils.vectorization").vectorize
    texts = {k: v for k, v in case["texts"]}
    voc, want = tfidf_reference(texts)
    res.add(states=1)
    if not voc:
        return res.count("no_common_word")
    before = list(texts.items())
    st, got = call(f, dict_of_texts=texts, vectorizer_type="tfidf") if case["k"] % 2 else call(f, texts)
    res.add(transitions=1, traces=1)
    if st != "ok":
        return res.problem(case, "vectorizing %r: %s %s" % (texts, st, got))
    if list(texts.items()) != before:
        return res.problem(case, "the texts were modified")
    r = rows(res, case, got, texts)
    if r is None:
        return
    order = sorted(texts)
    if not close_columns(columns(r, order), columns(want, order)):
        return res.problem(case, "TF-IDF of %r is %r instead of %r (columns in any order)" % (texts, columns(r, order), columns(want, order)))
    # another order of the entries, other IDs
    rev = {k: texts[k] for k in reversed(list(texts))}
    ren = {"x" + str(9 - j): texts[k] for j, k in enumerate(texts)}
    for name, t2, back in (("reversed", rev, {k: k for k in rev}), ("renamed", ren, {"x" + str(9 - j): k for j, k in enumerate(texts)})):
        st, g2 = call(f, dict_of_texts=t2)
        res.add(transitions=1)
        if st != "ok":
            return res.problem(case, "%s entries: %s %s" % (name, st, g2))
        r2 = rows(res, case, g2, t2)
        if r2 is None:
            return
        for k in t2:
            if len(r2[k]) != len(r[back[k]]) or not np.allclose(r2[k], r[back[k]], atol=1e-9):
                return res.problem(case, "%s entries change the vector of %r" % (name, back[k]))
    res.outcome((tuple(columns(r, order))))


def c27_cases(tier):
    T = tier == "thorough"
    W = ("aa", "bb", "Aa")
    small = [" ".join(w) for k in range(0, 3) for w in itertools.product(W[:2], repeat=k)]
    k = 0
    for n in (2, 3):
        for ts in itertools.product(small, repeat=n):
            k += 1
            yield {"texts": [[i, t] for i, t in zip(("b", "10", "9"), ts)], "k": k}
    rich = ["perte de carte", "carte de paiement", "perte de carte de paiement", "Carte BLEUE, perdue!", "carte carte carte", "été à l'été",
            "été", "", "a b c", "42", "perte de carte", "déjà vu 42 déjà vu"]
    for n in (2, 3, 4) if T else (2, 3):
        for ts in itertools.product(rich, repeat=n):
            k += 1
            if n < 3 or T or k % 2:
                yield {"texts": [[i, t] for i, t in zip(("0", "z", "é", "-"), ts)], "k": k}
    for ts in ([42, 42, "42 43"], [3.5, "3 55", 55], [None, "none", "x"], [True, "true true"]):
        k += 1
        yield {"texts": [[str(i), t] for i, t in enumerate(ts)], "k": k}
    big = ["word%d word%d word%d common" % (i % 7, (i * 3) % 5, (i * i) % 11) for i in range(60)]
    for n in (12, 60):
        k += 1
        yield {"texts": [[str(i), t] for i, t in enumerate(big[:n])], "k": k}
    # many texts, many words, one word in nearly all texts, one very long text
    k += 1
    yield {"texts": [["t%d" % (j % 3 * 1000 + j), "mot%d mot%d commun" % (j % 90, (j * 7) % 110)] for j in range(260)], "k": k}
    wide = ["w%dx w%dy" % (j, j) for j in range(700)]
    for split in (1, 350):
        k += 1
        yield {"texts": [["p", " ".join(wide)], ["q", " ".join(wide[split:] + wide[:split])], ["r", "autre w1x w1x"]], "k": k}
    k += 1
    yield {"texts": [["p", "aa bb " * 400 + "cc"], ["q", "aa bb"], ["r", "cc aa"], ["s", "dd"]], "k": k}


VEC = {"chat": [1.0, 0.0, 2.0], "chien": [0.0, 1.0, -1.0], "été": [3.0, 3.0, 0.5], "le": [0.25, 0.0, 0.0]}


@contextlib.contextmanager
def scratch_model(kind):
    """A small spaCy model on disk, in a scratch directory: 'vectors' or 'pipeline'."""
    import spacy
    from spacy.language import Language
    d = tempfile.mkdtemp(prefix="mcspacy")
    try:
        nlp = spacy.blank("fr")
        if kind == "vectors":
            for w, v in VEC.items():
                nlp.vocab.set_vector(w, np.array(v, dtype="f"))
        else:
            if not Language.has_factory("mc_heads"):
                Language.component("mc_heads", func=mc_heads)
                Language.component("mc_lemmas", func=mc_lemmas)
                Language.component("mc_noop", func=lambda doc: doc)
            # under the names of the components of a real pipeline, so that switching one off is visible
            nlp.add_pipe("mc_noop", name="tagger")
            nlp.add_pipe("mc_heads", name="parser")
            nlp.add_pipe("mc_noop", name="attribute_ruler")
            nlp.add_pipe("mc_lemmas", name="lemmatizer")
        nlp.to_disk(d)
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def mc_heads(doc):
    """Deterministic dependency tree: words in r* are roots, words in k* hang under the last root, others under the word before."""
    from spacy.tokens import Doc
    words, spaces = [t.text for t in doc], [bool(t.whitespace_) for t in doc]
    heads, root, last = [], None, None  # tokens that are only spaces take no part
    for i, w in enumerate(words):
        if not w.strip():
            heads.append(i if last is None else last)
            continue
        if root is None or w.startswith("r"):
            root = i
            heads.append(i)
        elif w.startswith("k"):
            heads.append(root)
        else:
            heads.append(last)
        last = i
    return Doc(doc.vocab, words=words, spaces=spaces, heads=heads, deps=["ROOT" if h == i else "dep" for i, h in enumerate(heads)])


def lemma_of(w):
    return {"chevaux": "Cheval", "étés": "été", "kiwis": "kiwi"}.get(w, w)


def mc_lemmas(doc):
    for t in doc:
        t.lemma_ = lemma_of(t.text)
    return doc


def c27_spacy(tier, res):
    f = lib("utils.vectorization").vectorize
    words = ("chat", "chien", "été", "inconnu", "Chat")
    texts = {}
    for k in range(0, 4 if tier != "thorough" else 5):
        for ws in itertools.product(words, repeat=k):
            texts["t%d" % len(texts)] = " ".join(ws)
    texts["n"] = 42
    case = {"kind": "spacy"}
    with scratch_model("vectors") as d:
        before = list(texts.items())
        st, got = call(f, dict_of_texts=texts, vectorizer_type="spacy", spacy_language_model=d)
        res.add(states=len(texts), transitions=len(texts), traces=len(texts))
        if st != "ok":
            return res.problem(case, "spaCy vectorization: %s %s" % (st, got))
        if list(texts.items()) != before:
            return res.problem(case, "the texts were modified")
        r = rows(res, case, got, texts)
        if r is None:
            return
        for i, t in texts.items():
            ws = str(t).split()
            want = np.mean([VEC.get(w, [0, 0, 0]) for w in ws], axis=0) if ws else np.zeros(3)
            if len(r[i]) != 3 or not np.allclose(r[i], want, atol=1e-5):
                return res.problem(case, "spaCy vector of %r is %r instead of %r" % (t, r[i].tolist(), np.asarray(want).tolist()))
            res.outcome(tuple(np.round(r[i], 4)))
        keys = list(texts)
        sub = {k: texts[k] for k in reversed(keys[::7])}
        st, g2 = call(f, dict_of_texts=sub, vectorizer_type="spacy", spacy_language_model=d)
        if st != "ok":
            return res.problem(case, "spaCy vectorization: %s %s" % (st, g2))
        r2 = rows(res, case, g2, sub)
        if r2 is not None and any(not np.allclose(r2[k], r[k], atol=1e-6) for k in sub):
            return res.problem(case, "the spaCy vector of a text depends on the other texts")


# ------------------------------------------------------------------------------------------------ C28
PUNCT = ".,;:!¡?¿…•(){}[]«»^`'\"\\/|-_#&~@"


def base_words(text):
    t = str(text).lower()
    return "".join(" " if c in PUNCT else c for c in t).split()


def strip_accents(t):
    out = []
    for c in t:
        d = unicodedata.normalize("NFD", c)
        out.append("".join(x for x in d if unicodedata.category(x) != "Mn"))
    return "".join(out)


def reference_preprocess(text, stop, parse, lemma, stops):
    ws = base_words(text)
    keep = []
    # dependency depth, by the rule of mc_heads
    depth = []
    for i, w in enumerate(ws):
        if i == 0 or w.startswith("r"):
            depth.append(0)
        elif w.startswith("k"):
            depth.append(1)
        else:
            depth.append(depth[-1] + 1)
    for w, dep in zip(ws, depth):
        if stop and w in stops:
            continue
        if parse and dep > 1:
            continue
        keep.append(lemma_of(w) if lemma else w)
    return strip_accents(" ".join(keep))


def c28_texts(tier):
    T = tier == "thorough"
    chars = ("a", "É", " ", "'", ".", "Ç", "\t", "-")
    for k in range(0, 6 if T else 5):
        for cs in itertools.product(chars, repeat=k):
            yield "".join(cs)
    words = ("rose", "Le", "kiwis", "étés", "chevaux", "nous")
    for k in range(1, 6 if T else 5):
        for ws in itertools.product(words, repeat=k):
            yield " ".join(ws)
    for p in PUNCT:
        yield "a%sb" % p
        yield "%s Rose %s%s le kiwis %s" % (p, p, p, p)
        yield "Chevaux%s%s étés" % (p, " " + p)
    for c in "àâäéèêëîïôöùûüÿçñãõåÀÂÄÉÈÊËÎÏÔÖÙÛÜŸÇÑÃÕÅ":
        yield "m%st R%s" % (c, c)
    for c in "œæßøłđŒÆØŁžšňőğşıжйёόώαあア漢字한글":
        yield "m%st r%s %s" % (c, c, c)
    yield "e\u0301te\u0301 E\u0301"  # already decomposed accents
    for s in ("\n", "\r\n", "  ", "\t\t", "\u00a0", "   \n  "):
        yield "rose%skiwis" % s
        yield "%srose%s" % (s, s)
    for w in ("rose", "kiwis", "été"):
        yield " ".join([w] * 40)
        yield "Nous, " + " ".join([w] * 1500) + "."
    for x in (42, 7, None, True):
        yield x


FLAGS = list(itertools.product((False, True), repeat=3))


def c28_batch(case, res):
    """One option combination over all texts of one block, in one call, against the reference; single texts alone as well."""
    f = lib("utils.preprocessing").preprocess
    from spacy.lang.fr.stop_words import STOP_WORDS
    texts = list(c28_texts(case["tier"]))[case["lo"]:case["hi"]]
    flags = tuple(case["flags"])
    d = {"k%d" % i: t for i, t in enumerate(texts)}
    before = list(d.items())
    with scratch_model("pipeline") as model:
        kw = dict(apply_stopwords_deletion=flags[0], apply_parsing_filter=flags[1], apply_lemmatization=flags[2], spacy_language_model=model)
        st, r = call(f, dict_of_texts=d, **kw)
        res.add(states=len(d), transitions=len(d), traces=len(d))
        if st != "ok":
            return res.problem(case, "preprocessing: %s %s" % (st, r))
        if not isinstance(r, dict) or set(r) != set(d):
            return res.problem(case, "preprocessed texts are given for other keys: %r" % sorted(set(r) ^ set(d))[:5])
        if list(d.items()) != before:
            return res.problem(case, "the texts were modified")
        for k, t in d.items():
            want = reference_preprocess(t, flags[0], flags[1], flags[2], STOP_WORDS)
            if r[k] != want:
                return res.problem(dict(case, only=t), "text %r (options %r) becomes %r instead of %r" % (t, flags, r[k], want))
            res.outcome(r[k])
        # independence: alone, and among others in another order
        keys = list(d)
        for sub in (keys[::53], list(reversed(keys))[::31], keys[-1:]):
            st, r2 = call(f, dict_of_texts={k: d[k] for k in sub}, **kw)
            if st != "ok" or any(r2[k] != r[k] for k in sub):
                return res.problem(case, "the result for a text depends on the other texts")
        if flags == (False, False, False):
            st, r3 = call(f, dict_of_texts=dict(r), spacy_language_model=model)
            if st != "ok" or r3 != r:
                bad = next((k for k in r if st == "ok" and r3[k] != r[k]), None)
                return res.problem(case, "preprocessing again changes %r" % (bad and r[bad],))


def c28(tier, res):
    n = len(list(c28_texts(tier)))
    step = 700
    cases = [{"tier": tier, "lo": lo, "hi": min(n, lo + step), "flags": list(fl)} for lo in range(0, n, step) for fl in FLAGS]
    cases += [{"tier": tier, "lo": 500, "hi": 3100, "flags": list(fl)} for fl in (FLAGS[0], FLAGS[-1])]  # one large batch
    parallel("c28", c28_batch, cases, chunk=1, res=res)


# ------------------------------------------------------------------------------------------------ dispatch
def check(pid, tier, res):
    if pid == "C26":
        parallel("c26", c26_case, c26_cases(tier), res=res)
    elif pid == "C27":
        c27_spacy(tier, res)
        if not res.problems:
            parallel("c27", c27_case, c27_cases(tier), res=res)
    else:
        c28(tier, res)


def replay(pid, case):
    r = Res()
    if pid == "C26":
        c26_case(case, r)
    elif pid == "C27":
        c27_spacy("quick", r) if case.get("kind") == "spacy" else c27_case(case, r)
    else:
        c28_batch(case, r)
    return [m for _, m in r.problems]


RULES = {
    "C26": "every clustering of up to 6 data with labels in {-2,-1,0,1,5} (7 data in thorough), plus large regular ones; compared with exact counts; outcomes = distinct frequency tables",
    "C27": "every assignment of 2-3 texts from all word sequences up to length 2 over two words and from a list of 12 rich texts, compared with TF-IDF computed from its definition, in three presentations (given, reversed, renamed); every word sequence up to length 3 over 5 words through a spaCy model built for the check",
    "C28": "every string up to length 4 over 8 characters, every word sequence up to length 4 over 6 words, every punctuation sign and accented letter, under all 8 option combinations, through a spaCy pipeline built for the check with a known dependency tree and lemmas; compared with an independent reference",
}
ASSUMES = {
    "C26": [],
    "C27": ["the columns of the TF-IDF matrix may be in any order", "word = two or more word characters, smooth idf, l2 norm (scikit-learn's documented defaults)", "no spaCy language model is installed here: a blank French model with a small vector table stands in"],
    "C28": ["no spaCy language model is installed here: a blank French pipeline with deterministic heads and lemmas stands in, under the component names of a real one",
            "compatibility characters whose decomposition creates new punctuation, spaces or capitals (e.g. the trade mark sign) are outside the domain"],
}
