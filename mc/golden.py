"""The documented examples of extraction: the sentences of the tests of the repository with their dependency trees, and what each
stage gives for them."""


def _tree(text):
    """Lines of word, head, dependency, part of speech, lemma, entity type."""
    heads, words = [], []
    for line in text.strip().splitlines():
        f = line.split()
        heads.append(int(f[1]))
        words.append((f[2], f[3], f[4] if len(f) > 4 else '', f[0], f[0]))
    return tuple(heads), tuple(words)


GOLDEN = [
    (_tree('''
some 1 det DET
subspecies 5 nsubj NOUN
of 1 prep ADP
mosquito 2 pobj NOUN
might 5 aux VERB
be 5 ROOT VERB
1st 5 acomp ADJ
to 10 aux PART
be 10 auxpass VERB
genetically 10 advmod ADV
wiped 6 xcomp VERB
out 10 prt PART
. 5 punct PUNCT'''),
     ("(might (be (some (of subspecies mosquito)) (1st (to (be (genetically (wiped out)))))))",
      "(might (be (some (of subspecies mosquito)) (1st (to (be (genetically (wiped out)))))))",
      "(might_be (some (of subspecies mosquito)) (1st (to_be_genetically wiped_out)))",
      "(might_be (some (of subspecies mosquito)) (1st (to_be_genetically wiped_out)))")),
    (_tree('''
telmo 2 nsubj PROPN
is 2 aux VERB
going 2 ROOT VERB
to 2 prep ADP
the 5 det DET
gym 3 pobj NOUN
. 2 punct PUNCT'''),
     ("(is (going telmo (to (the gym))))", "(is (going telmo (to (the gym))))", "(is_going telmo (to gym))",
      "(is_going_to telmo gym)")),
    (_tree('''
due 11 prep ADP
to 0 pcomp ADP
its 3 poss ADJ
location 0 pobj NOUN
in 3 prep ADP
the 7 det DET LOC
european 7 compound PROPN LOC
plain 4 pobj PROPN LOC
, 11 punct PUNCT
berlin 11 nsubjpass PROPN GPE
is 11 auxpass VERB
influenced 11 ROOT VERB
by 11 agent ADP
a 16 det DET
temperate 16 amod ADJ
seasonal 16 amod ADJ
climate 12 pobj NOUN
. 11 punct PUNCT'''),
     ("(is (by (influenced ((due to) (its (in location (the (european plain))))) berlin) (a (temperate (seasonal climate)))))",
      "(is (by (influenced ((due to) (its (in location (the european_plain)))) berlin) (a (temperate (seasonal climate)))))",
      "(is_by (influenced (due_to (its (in location european_plain))) berlin) (temperate (seasonal climate)))",
      "((influenced_due_to is_by) (its (in location european_plain)) berlin (temperate (seasonal climate)))")),
    (_tree('''
koikuchi 1 compound PROPN
shoyu 9 nsubj PROPN
, 1 punct PUNCT
best 4 advmod ADV
known 1 acl VERB
as 4 prep ADP
soy 7 compound NOUN
sauce 5 pobj NOUN
, 1 punct PUNCT
is 9 ROOT VERB
the 11 det DET
mother 9 attr NOUN
of 11 prep ADP
all 14 det DET
sauces 12 pobj NOUN
in 11 prep ADP
japan 15 pobj PROPN GPE
. 9 punct PUNCT'''),
     ("(is ((koikuchi shoyu) (best (known (as (soy sauce))))) (the (of (in mother japan) (all sauces))))",
      "(is (koikuchi_shoyu (best (known (as soy_sauce)))) (the (of (in mother japan) (all sauces))))",
      "(is (koikuchi_shoyu (best_known_as soy_sauce)) (of (in mother japan) (all sauces)))",
      "((is of) (koikuchi_shoyu (best_known_as soy_sauce)) (in mother japan) (all sauces))")),
    (_tree('''
sweden 1 nsubj PROPN GPE
is 1 ROOT VERB
the 6 det DET
third 5 advmod ADV
- 5 punct PUNCT
largest 6 amod ADJ
country 1 attr NOUN
in 6 prep ADP
the 10 det DET ORG
european 10 compound PROPN ORG
union 7 pobj PROPN ORG
by 6 prep ADP
area 11 pobj NOUN
. 1 punct PUNCT'''),
     ("(is sweden (the (third (largest (in (by country area) (the (european union)))))))",
      "(is sweden (the (third (largest (in (by country area) (the european_union))))))",
      "(is sweden (third (largest (in (by country area) european_union))))",
      "(is_third sweden (largest (in (by country area) european_union)))")),
    (_tree('''
sweden 1 nsubj PROPN GPE
wants 1 ROOT VERB
to 3 aux PART
fight 1 xcomp VERB
our 6 poss ADJ
disposable 6 amod ADJ
culture 3 dobj NOUN
with 3 prep ADP
tax 9 compound NOUN
breaks 7 pobj NOUN
for 9 prep ADP
repairing 10 pcomp VERB
old 13 amod ADJ
stuff 11 dobj NOUN
. 1 punct PUNCT'''),
     ("(wants sweden (to (fight (our (disposable culture)) (with ((for (repairing (old stuff))) (tax breaks))))))",
      "(wants sweden (to (fight (our (disposable culture)) (with ((for (repairing (old stuff))) tax_breaks)))))",
      "(wants sweden (to_fight (our (disposable culture)) (with ((for_repairing (old stuff)) tax_breaks))))",
      "((wants_to_fight with) sweden (our (disposable culture)) ((for_repairing (old stuff)) tax_breaks))")),
    (_tree('''
opencola 1 nsubj PROPN
is 1 ROOT VERB
a 3 det DET
brand 1 attr NOUN
of 3 prep ADP
open 7 amod ADJ
- 7 punct PUNCT
source 8 compound NOUN
cola 4 pobj NOUN
, 8 punct PUNCT
where 16 advmod ADV
the 12 det DET
instructions 16 nsubj NOUN
for 12 prep ADP
making 13 pcomp VERB
it 16 nsubj PRON
are 8 relcl VERB
freely 18 advmod ADV
available 16 acomp ADJ
and 18 cc CONJ
modifiable 18 conj ADJ
. 1 punct PUNCT'''),
     ("(is opencola (a (of brand (((open source) cola) (where (are (the ((for making) instructions)) it "
      "(freely (and (available modifiable)))))))))",
      "(is opencola (a (of brand (((open source) cola) (where (are (the ((for making) instructions)) it "
      "(freely (and (available modifiable)))))))))",
      "(is opencola (of brand (((open source) cola) (where_are (for_making instructions) it "
      "(freely (and (available modifiable)))))))",
      "((is of) opencola brand ((open source cola) (where_are (for_making instructions) it "
      "(freely (and (available modifiable))))))")),
    (_tree('''
2016 2 nummod NUM DATE
nobel 2 compound PROPN WORK_OF_ART
prize 8 nsubjpass PROPN WORK_OF_ART
in 2 prep ADP
physiology 3 pobj PROPN
or 4 cc CONJ
medicine 4 conj PROPN
is 8 auxpass VERB
awarded 8 ROOT VERB
to 8 prep ADP
yoshinori 11 compound PROPN PERSON
ohsumi 9 pobj PROPN PERSON
. 8 punct PUNCT'''),
     ("(is (awarded (2016 (in (nobel prize) (or (physiology medicine)))) (to (yoshinori ohsumi))))",
      "(is (awarded (2016 (in nobel_prize (or (physiology medicine)))) (to yoshinori_ohsumi)))",
      "(is_awarded (2016 (in nobel_prize (or (physiology medicine)))) (to yoshinori_ohsumi))",
      "(is_awarded_to (2016 (in nobel_prize (or (physiology medicine)))) yoshinori_ohsumi)")),
]
