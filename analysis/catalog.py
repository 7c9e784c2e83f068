"""The properties: what each says, and where it is anchored.  gen.py writes properties.jsonl and MANIFEST.json from this."""

P = []


def prop(pid, title, statement, over, text, why, files, mech, technique, note, state=None):
    assert len(title) <= 80, (pid, len(title))
    d = {'id': pid, 'title': title, 'statement': statement,
         'quantifier': {'over': over if isinstance(over, list) else [over], 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    P.append((d, technique, note))


DEC = 'src/decompose/mod.rs'
LEX = 'src/lex/mod.rs'
RUL = 'src/rules.rs'
ANYTEXT = 'every input text (any length, any Unicode)'
HIST = 'every input text and every order of calls on the iterator'
T_MON = 'abstract interpretation of MIR to a behaviour graph; product with a safety monitor'
T_BIS = 'abstract interpretation of MIR to a behaviour graph; bisimulation with a frozen specification graph'
N_MON = ('Every path of the most general client (loops included) over a symbolic text, so unbounded in the text and in the number of calls. '
         'Trusts rustc, the MIR interpreter and its models of core functions; a shape the interpreter cannot read is reported as undecided, not as a violation.')
N_BIS = ('Every path over a symbolic text is matched against the frozen specification graph (reviewed against the documentation when frozen). '
         'Trusts rustc, the MIR interpreter, its models of core functions and the frozen graph; differences it cannot settle within its budget are reported as undecided.')

# ------------------------------------------------------------------ decomposition
prop('D01', 'Words are in-bounds spans, in order, without overlap, and the end is final',
     'Every span the word iterator yields lies within the input, has its start no later than its end, and starts no earlier than the previous one ended, whichever of its methods are mixed. Once plain iteration has reported the end, nothing more is ever yielded.',
     ['inputs', 'histories'], HIST,
     'Tests look at a handful of texts consumed front to back by one method; the claim is about every text and every mix of the decomposing and the non-decomposing method.',
     [DEC], [('splitting a chunk into spans', DEC + ': decompose_single'), ('offsetting chunk-relative words', DEC + ': Decomposer::next'), ('raw words', DEC + ': Decomposer::next_no_decomposition')],
     T_MON, N_MON)
prop('D02', 'Decomposition loses no text',
     'Every character of the input ends up in exactly one word unless it is a separator, or a comma left over at the end of a chunk: within a chunk the words follow each other without gaps and cover it up to trailing commas. No chunk that holds anything but commas is skipped.',
     ['inputs', 'histories'], ANYTEXT,
     'Tests compare the words of about a hundred sample texts; a gap that needs a particular sequence of fallen-off cmavo and a failed look-ahead is not among them.',
     [DEC], [('saved cmavo and remainder', DEC + ': decompose_single'), ('chunk filter', DEC + ': Decomposer::next')],
     T_MON + '; bisimulation', N_MON)
prop('D03', 'No word is empty or made of commas only',
     'A word produced by decomposition always contains at least one character that is not a comma, so it is never empty.',
     'inputs', ANYTEXT,
     'Only texts with particular placements of commas and separators could show an empty word; tests have two or three of them.',
     [DEC, RUL], [('chunk filter', DEC + ': Decomposer::next'), ('trailing comma trimming', DEC + ': decompose_single'), ('recognisers', RUL)],
     T_MON + '; induction over the recogniser call graph', N_MON)
prop('D04', 'Words are separated exactly at whitespace and pauses',
     'Space, tab, newline, carriage return, full stop, question mark and exclamation mark each end a chunk, and no other character does; a word never spans one, and chunks that are empty or only commas yield no word.',
     'inputs', ANYTEXT,
     'The separator set is a claim about every Unicode character; tests use space and full stop.',
     [DEC], [('separator predicate', DEC + ': split_or_trim_condition'), ('chunk iteration', DEC + ': Decomposer::next')],
     T_BIS, N_BIS)
prop('D05', 'The size hint of the word iterator never promises too much or too little',
     'At every point of every iteration, the lower bound of the size hint is at most the number of words that plain iteration will still yield, and the upper bound, if there is one, is at least that number.',
     ['inputs', 'histories'], HIST,
     'Size hints are consumed by collection code that may preallocate or trust them; tests never compare the hint with what follows at every point of an iteration.',
     [DEC], [('size hint', DEC + ': Decomposer::size_hint')],
     T_MON, N_MON)
prop('D06', 'A chunk whose last letter is a consonant is one word (a cmevla), whole',
     'If the last non-comma character of a chunk is a consonant letter (either case), the chunk is never split: it yields exactly one word, the chunk without its trailing commas. A chunk ending in anything else is not treated this way.',
     'inputs', ANYTEXT,
     'It is a claim about every chunk, including ones that contain valid cmavo and brivla inside; tests cover few.',
     [DEC], [('cmevla check', DEC + ': simple_cmevla_check, is_consonant'), ('early return', DEC + ': decompose_single')],
     T_BIS, N_BIS)
prop('D07', 'Raw (non-decomposing) reading yields the rest of the chunk, and keeps position',
     'Asking for a word without decomposition yields, when words of the current chunk are left, everything from the next of them to the end of the chunk, and otherwise the whole next chunk even if it is empty; decomposing iteration then resumes at the chunk after it.',
     ['inputs', 'histories'], HIST,
     'The two iteration methods share state; only particular interleavings on particular texts reveal a slip between them, and tests try three.',
     [DEC], [('raw words', DEC + ': Decomposer::next_no_decomposition')],
     T_BIS, N_BIS)
prop('D08', 'A chunk falls apart into words by the fixed order of attempts',
     'From the front of a chunk, cmavo (preferred) and explicitly stressed brivla fall off one by one for as long as one can; the last one that fell off is kept as a word of its own only if what follows it is a complete word by itself, otherwise it stays joined to the rest. What remains, up to trailing commas, is the final word.',
     'inputs', ANYTEXT,
     'The rule is about every chunk; only chunks where the last cmavo must be given back (tosmabru and slinkuhi failures) distinguish wrong variants and tests contain few.',
     [DEC], [('falling-off loop and look-ahead', DEC + ': decompose_single, post_word')],
     T_BIS, N_BIS)

# ------------------------------------------------------------------ morphology
MW = 'A recogniser is a predicate on every string; tests try some hundred accepted and rejected words.'


def morph(pid, title, statement, names):
    prop(pid, title, statement, 'inputs', ANYTEXT + ', at every position', MW, [RUL], [('recognisers', RUL + ': ' + names)], T_BIS,
         'Each recogniser is compared with its frozen specification graph over a symbolic text, callees uninterpreted (congruence), unfolding them where that does not decide. ' + N_BIS)


morph('M01', 'Consonants and what may follow each of them',
      'A consonant is one of the seventeen Lojban consonant letters (either case, commas before it ignored) not followed by itself, by an apostrophe or by a glide; voiced ones (b d g j v z) are not followed by unvoiced ones (c f k p s t x) nor the reverse, and the pairs cs, cx, jz, kx, mz, sc, xc, xk, zj and n before ts, tc, dz, dj are excluded. The letters of the voiced, unvoiced, syllabic, liquid, sibilant and affricate classes are fixed.',
      'b, c, d, f, g, j, k, l, m, n, p, r, s, t, v, x, z, voiced, unvoiced, syllabic, liquid, sibilant, affricate, other')
morph('M02', 'Vowels, diphthongs, glides and the apostrophe',
      'A vowel is a, e, i, o, u or y (either case, commas before it ignored) not followed by another vowel sound; the diphthongs are exactly ai, au, ei and oi under the same condition; a glide is i or u directly before a vowel sound; and an apostrophe (or h) counts only directly before one.',
      'a, e, i, o, u, y, h, vowel, diphthong, glide, nucleus, digit')
morph('M03', 'Permissible onsets, pairs, codas and syllables',
      'An onset is an apostrophe, a glide, or at most a sibilant, another consonant and a liquid in that order (or an affricate) directly before a vowel sound; a word-initial pair is two consonants that form one; a coda is a consonant before another syllable or the end of the text; a syllable is onset, vowel sound, optional coda, and a consonant followed by a syllabic consonant makes a syllable of its own.',
      'onset, initial, initial_pair, cluster, coda, syllable, any_syllable, consonantal_syllable, final_syllable')
morph('M04', 'Where stress lies',
      'A vowel or syllable is explicitly stressed exactly when its first vowel letter is a capital A, E, I, O or U, and otherwise stressed exactly when the rest of the text is one last syllable (possibly with y between); unstressed ones are those that are neither.',
      'stress, stressed, stressed_vowel, stressed_diphthong, stressed_syllable, unstressed_*, explicitly_stressed_vowel, explicitly_stressed_diphthong, explicitly_stressed_syllable')
morph('M05', 'Which texts are cmavo',
      'A cmavo is a digit, a run of y, or an optional single consonant or glide with vowel sounds joined by apostrophes, whichever is longest, whose last vowel sound is not explicitly stressed unless no consonant cluster follows; nothing that begins a lujvo whose first rafsi is consonant-vowel-consonant-y is one. Where a complete word is asked for, it must be followed by the end of the text or by another word.',
      'cmavo, cmavo_minimal, cmavo_semi_minimal, cmavo_form, cvcy_lujvo, post_word')
morph('M06', 'Which texts are cmevla',
      'A cmevla does not begin with an apostrophe and is a run of vowel sounds, glides, apostrophes, digits and permissible consonants whose last letter is a consonant at the end of the text; nothing else is one.',
      'cmevla, eof')
morph('M07', 'Which texts are gismu, and which are rafsi',
      'A gismu is an initial pair, a vowel, a consonant and a vowel, or consonant, vowel, two consonants and a vowel, with stress on the first vowel, an unstressed last syllable that is not y, and a word boundary after it. The short, long, y-joined and hyphenated rafsi forms are fixed, with stress where the form asks for it.',
      'gismu, cvc_rafsi, ccv_rafsi, cvv_rafsi, y_rafsi, hy_rafsi, long_rafsi, short_final_rafsi, initial_rafsi, their stressed and explicitly stressed forms')
morph('M08', 'Which texts are lujvo and explicitly stressed brivla',
      'A lujvo is any number of initial rafsi followed by a brivla core: a gismu, a fu\'ivla, a final consonant-vowel-\'-vowel rafsi, or a stressed initial rafsi with a short final one. A brivla recognised by explicit stress is the same with the stress written, and ends right after the syllable that follows it.',
      'lujvo, lujvo_minimal, brivla, brivla_minimal, brivla_core, explicitly_stressed_brivla_core, explicitly_stressed_brivla_minimal')
morph('M09', "Which texts are fu'ivla",
      "A fu'ivla is unstressed syllables, one stressed syllable, any consonantal syllables and a last unstressed syllable, provided the text does not begin with a string of rafsi, with a complete cmavo or with an apostrophe, and does not become a string of rafsi when its first consonant is taken away (slinku'i).",
      'fuhivla, fuhivla_head, brivla_head, slinkuhi, rafsi_string, fuhivla_rafsi, stressed_fuhivla_rafsi, explicitly_stressed_fuhivla_minimal')

# ------------------------------------------------------------------ lexing
LM = [('token iterator', LEX + ': Lexer'), ('quote handling', LEX + ': Lexer::next')]


def lexp(pid, title, statement, why, technique=T_MON, note=N_MON, mech=LM):
    prop(pid, title, statement, ['inputs', 'histories'], 'every input text and every classification of its words; every number of calls',
         why, [LEX], mech, technique, 'The word iterator and the classification of words are uninterpreted, so this holds for any dictionary. ' + note)


lexp('L01', 'After the end or an error the token iterator stays ended',
     'Once lexing has reported the end of the tokens or an error, every further call reports the end.',
     'Tests collect into a result and stop at the first error or end; they never call again.')
lexp('L02', "fa'o ends the text, and nothing else ends it early",
     "A text-ending word (FAhO or its variant) met as a word of its own yields its token and then the tokens are over, whatever follows; without one, the tokens go on until the words do. Inside a quotation such a word is ordinary text.",
     'Whether text after the word can leak depends on the calls made afterwards and on the state the lexer is in.')
lexp('L03', 'Each quotation initiator takes exactly its own kind and number of quotes',
     'A word of one of the delimited classes is followed by one delimited quotation (two sharing their middle delimiter for the comparing class), a word of one of the pause-delimited classes by exactly one raw word, and a word of any other class makes raw text of nothing.',
     'Tests try a few quotations; the claim ranges over every initiator class, every position and every text after it.')
lexp('L04', 'Tokens come out in text order, one per word',
     'Outside quotations every word yields exactly one token, in order, with nothing skipped, repeated or reordered; a delimited quotation comes out as initiator, delimiter, text if there is any, delimiter (then text if any and delimiter again for a second quotation), with the classes that say so.',
     'Sequencing uses a queue inside the iterator; only particular sequences of words and quotations exercise it fully.')
lexp('L05', 'A delimited quotation ends exactly at its first closing delimiter',
     'The quotation closes at the first raw word that equals the opening delimiter when commas are ignored in both, and its text runs from the start of the first raw word before that to the end of the last; if there is none in between, there is no text. Nothing inside is decomposed.',
     'It is a claim about every text between delimiters, including text that looks like words or contains the delimiter inside a longer word.',
     T_BIS, N_BIS)
lexp('L06', 'A token outside quotations carries exactly the span and class of its word',
     'The span of a token is the span of the word it stands for, and its class and its experimental mark are those the classification of exactly that text gave.',
     'The pairing of a span with a classification made elsewhere is a claim about every path; tests compare a few.')
lexp('L07', 'Lexing errors name the right initiator and happen only when the quote is broken',
     'An error is reported exactly when the words run out inside a quotation before its opening delimiter, its closing delimiter or its text; the error says which, and carries the span of the word that started that quotation (and of the opening delimiter where it has one).',
     'Tests have one input per error kind; that no other input yields an error, or a different one, ranges over all inputs.')
lexp('L08', 'Quoted text is taken verbatim',
     'Text inside a quotation is never decomposed into words; the tokens of quoted text and of delimiters have exactly the spans of what was read for them, and are never marked experimental.',
     'That quoted text stays untouched has to hold for whatever is quoted; tests quote a few phrases.')

# ------------------------------------------------------------------ classification
CLS = 'src/lex/selmaho/classify.rs'
SEL = 'src/lex/selmaho/mod.rs'
DSP = 'src/lex/selmaho/display.rs'
N_TAB = ('The whole decision graph of classification is extracted by abstract interpretation of MIR (spelling normalisation and recognisers uninterpreted) and evaluated for every key. '
         'Trusts rustc, the MIR interpreter, its models of core functions, and the frozen word list where one is used.')
WORDS = 'every dictionary word in every spelling'
prop('C01', 'Every listed cmavo gets its class, however it is spelled',
     "Each of the about 1360 cmavo of the word list, official and experimental, is classified as its listed class and nothing else, in every spelling (commas anywhere, h for the apostrophe). A run of the letter y is always the hesitation class.",
     'inputs', WORDS,
     'Tests classify a small part of the words, and an entry shadowed by an earlier one, moved to another class or lost is only seen by asking about that word.',
     [CLS], [('dictionary', CLS + ': Selmaho::classify'), ('spelling', CLS + ': transform_for_direct_cmavo_check')],
     'abstract interpretation of MIR to a decision graph; evaluation of the graph for every key against the frozen list', N_TAB)
prop('C02', 'Every dictionary entry can be reached by the word it is written as',
     'Each entry of the cmavo dictionary is written in the normal form words are brought into before the lookup (lower case, apostrophes, no commas, h or spaces), and is not longer than that form may be. Its word is decided by comparison with an entry, never by a more general test before it.',
     'inputs', 'every entry of the dictionary',
     'An entry no word can ever equal makes no test fail; it only makes its word unknown.',
     [CLS], [('dictionary', CLS + ': Selmaho::classify'), ('length of the longest cmavo', CLS + ': CUHUHU_ETC')],
     'abstract interpretation of MIR to a decision graph; well-formedness of every comparison in it', N_TAB)
prop('C03', 'Spelling variants of a cmavo are looked up as the same word',
     'Before the dictionary lookup a word is brought into a normal form: its commas are dropped, h becomes an apostrophe, every other character stays as it is and in its place, and nothing is cut off: a word that does not fit is looked up as no word at all. The longest listed cmavo fits.',
     'inputs', 'every word; buffers of 1 to 4 places (the code does not look at the length otherwise)',
     'The longest words, and commas in unusual places, are exactly what samples leave out.',
     [CLS], [('normal form', CLS + ': transform_for_direct_cmavo_check')],
     'abstract interpretation of MIR to a behaviour graph; product with a monitor that computes the expected result',
     'All words, but only for buffers of up to four places; larger ones are taken to be treated alike. Multi-byte characters count as one place.')
prop('C04', 'A word outside the dictionary is classified by its form, in a fixed order',
     "A word that is no listed cmavo is a cmevla if all of it is one, else an unknown cmavo, else a gismu, else a fu'ivla, else a lujvo, each only if the recogniser accepts the whole word; everything else is plain text. The order is the one in which words are recognised during decomposition.",
     'inputs', 'every word that is not in the dictionary',
     'Words that satisfy two recognisers, or one only in part, decide the order; tests contain few of them.',
     [CLS, RUL], [('classification by form', CLS + ': Selmaho::classify_generally'), ('recognisers', RUL)],
     T_BIS, N_BIS)
prop('C05', 'The experimental mark is set exactly for experimental words',
     'A token is marked experimental if its word is listed as an experimental cmavo or if its whole class is experimental (unknown cmavo included), and never for official cmavo, brivla, cmevla or plain text. Which classes are experimental as a whole is fixed.',
     'inputs', WORDS + '; every class',
     'The mark belongs to over a thousand words; tests look at the mark of a few.',
     [CLS, SEL], [('experimental words', CLS + ': Selmaho::classify'), ('experimental classes', SEL + ': Selmaho::is_fundamentally_experimental')],
     'abstract interpretation of MIR to a decision graph; evaluation of every leaf and every class against the frozen lists', N_TAB)
prop('C06', 'Every class is shown by its conventional name, and no two alike',
     "A cmavo class is shown in capitals with h for the apostrophe, after one of its own words; word classes are shown in lower case and technical ones in parentheses. No two classes share a name, and displaying a class gives the same name as asking for it.",
     'inputs', 'every class',
     'Tests compare three of about 250 names, and never that a class contains the word it is named after.',
     [DSP, CLS], [('names', DSP + ': Selmaho::as_repr'), ('display', DSP + ': Display for Selmaho')],
     'abstract interpretation of MIR, evaluated for every class against the naming rule', N_TAB)

# ------------------------------------------------------------------ spans
SPN = 'src/span.rs'
prop('S01', 'Span relations mean what half-open ranges mean, for every pair of spans',
     'For all well-formed spans (empty ones and ones at 0 included): the length is end minus start, a span is empty exactly when its ends are equal, and it contains exactly the locations from its start up to but not including its end. Two spans overlap exactly when each starts before the other ends, and the gap between two is from the end of the first to the start of the second if that is not empty, and otherwise nothing. None of this panics.',
     'inputs', 'every pair of well-formed spans and every location',
     'A slip shows only for particular orders of four end points (touching, nested, empty, at 0); the tests have ten pairs.',
     [SPN], [('relations', SPN + ': Span::len, is_empty, contains, overlaps_with, between')],
     'abstract interpretation of MIR to a decision graph per operation; evaluation for every ordering of the end points; range proof of every arithmetic step',
     'The operations only compare and subtract end points, so the cases cover every order; distances are covered up to 4. Trusts rustc, the MIR interpreter and its models.')
prop('S02', 'Slicing by a span never panics and is exact',
     'Slicing a text by any span at all (ends reversed, outside the text, or in the middle of a character) gives exactly the text between its ends if both are character boundaries within the text in order, and otherwise nothing. The slices before and after a span behave the same with the one end they depend on.',
     'inputs', 'every span and every text of up to 3 bytes, with every placement of character boundaries',
     'Spans that do not fit the text are what no test slices by; indexing instead of checked access would panic only for those.',
     [SPN], [('slices', SPN + ': Span::slice, slice_after, slice_before')],
     'abstract interpretation of MIR to a decision graph per operation; evaluation for every small text, span and boundary placement',
     'Bounded to texts of three bytes; the code does not look at lengths otherwise. An access that may panic is an unproved obligation and reported.')
prop('S03', 'Spans are made with the right ends, and never with the end before the start',
     'Making a span from two ends keeps them and refuses an end before the start; from a start and a length it ends that much later; from a whole text it runs from 0 to its length; and from a part of a text it has the offsets at which that part begins and ends.',
     'inputs', 'every text shorter than 4 GiB, every part of it, and every pair of ends',
     'Tests build spans from a few constants, and never an ill-formed one.',
     [SPN], [('construction', SPN + ': Span::new, at, entire_slice, from_embedded_slice')],
     'abstract interpretation of MIR to a decision graph per operation; evaluation for every ordering of the ends',
     'Addresses are symbolic positions; texts of 4 GiB and more, for which the conversions panic, are excluded.')

# ------------------------------------------------------------------ parsing
CST = 'src/parse/cst/mod.rs'
GRM = 'src/parse/cst/rules/mod.rs'
SLM = 'src/parse/cst/rules/selmaho.rs'
HLP = 'src/parse/cst/rules/helpers.rs'
CON = 'src/parse/cst/rules/connectives.rs'
MEX = 'src/parse/cst/rules/mekso.rs'
PTR = 'src/parse/cst/parse_trait.rs'
ERR = 'src/parse/cst/error.rs'
TRN = 'src/parse/tree_node.rs'
DPA = 'macros/src/derive_parse.rs'
DTN = 'macros/src/derive_tree_node.rs'
TOKS = 'every sequence of tokens'
T_PEX = 'abstract interpretation of MIR (derived parsers and combinators executed) to one behaviour graph per rule'
N_PEX = ('Every path of every rule over a symbolic token sequence of any length. Trusts rustc, the MIR interpreter and its models of core, alloc and bumpalo functions; '
         'what it cannot read is reported as undecided, not as a violation.')
N_GRM = ('Each rule is matched against the frozen grammar with the other rules taken as opaque, so sequences of any length and nesting are covered; the frozen grammar was reviewed against the rule definitions and their comments, '
         'not proved to be the Lojban of any book. Trusts rustc, the MIR interpreter and its models.')
prop('P01', 'A successful parse has read the whole text, and a full match is never refused',
     'Parsing starts at the first token with the rule for a whole text, and succeeds exactly when that rule matches and ends at the last token; tokens are never left over silently. If the text rule matches everything, the parse does not fail.',
     'inputs', TOKS,
     'Tests only parse texts that are all grammatical; a text with an ungrammatical end that is accepted in part would not be noticed.',
     [CST], [('entry point', CST + ': Cst::parse')],
     T_PEX + '; check of every end of the entry point', N_PEX)
prop('P02', 'The syntax tree keeps every token, once and in order',
     'Whatever a rule has consumed is in the node it returns: read from first to last, the parts of every node (the elements of lists included) are made from consecutive stretches of tokens that together are exactly what the rule consumed. Nothing is dropped, duplicated or put out of order, so the whole text can be recovered from the leaves.',
     'inputs', TOKS,
     'The tests compare how a text is grouped for sample texts; a rule that drops a token on one of its paths is only seen by a text that takes this path.',
     [GRM, SLM, HLP, CON, MEX, PTR, DPA], [('derived parsers', DPA), ('word rules', SLM + ': token_types'), ('lists', HLP + ': many0, many1'), ('hand-written rules', GRM + ': LohuSumti')],
     'abstract interpretation of MIR keeping the token stretch of every value; tiling check of every successful end of every rule', N_PEX)
prop('P03', 'Walking the tree visits every part of every node, once and in order',
     'For every kind of node, in every alternative and with every combination of present and absent parts, visiting the children visits each part that is there exactly once, in the order of the text, list elements included, and nothing else. Containers that are no nodes of their own (lists, pairs, optional parts) pass on their elements in the same way.',
     'inputs', 'every node of every kind',
     'Printing and other consumers see the tree only by this walk; a part skipped in one alternative of one of 200 kinds of node changes no test.',
     [TRN, DTN, HLP, SLM, GRM], [('derived traversal', DTN), ('containers', TRN + ': TreeNodeChild'), ('separated lists', HLP + ': Separated')],
     'abstract interpretation of MIR of every implementation over opaque parts, per alternative; order check of all visits', N_PEX)
prop('P04', 'A node spans from its first part to its last, and knows if one is experimental',
     'For every kind of node: the start is the start of the first part that has one, the end is the end of the last part that has one, and a node without any such part has neither. A node is experimental exactly when one of its parts is; a leaf gives the ends and the mark of its token.',
     'inputs', 'every node of every kind',
     'Locations and marks of inner nodes are not compared by any test of the parser; a list searched from the wrong end is right for lists of one.',
     [TRN, DTN, HLP, SLM, GRM], [('derived locations and marks', DTN), ('containers', TRN + ': TreeNodeChild'), ('separated lists', HLP + ': Separated'), ('leaves', SLM)],
     'abstract interpretation of MIR of every implementation over opaque parts, per alternative; comparison of every answer with the rule', N_PEX)
prop('P22', 'Every node of the tree bears the name of its rule, a word that of its class',
     'A node names itself by its rule, with the alternative taken where the rule has several; the leaf of a word, and a bare token, name themselves by the conventional name of their class; a reference to a node has the name of that node. The name depends on nothing else, and asking for it never panics.',
     'inputs', 'every node of every kind',
     'Names of nodes are what a tree is printed by; the tests compare debug output, which does not ask for them.',
     [TRN, DTN, HLP, SLM, GRM], [('derived names', DTN), ('words', SLM + ': token_types'), ('separated lists', HLP + ': Separated')],
     'abstract interpretation of MIR of every implementation over opaque parts, per alternative; comparison of every name with its type', N_PEX)

def gram(pid, title, statement, why, files, mech):
    prop(pid, title, statement, 'inputs', TOKS, why, files, mech,
         T_PEX + '; bisimulation of each rule with the frozen grammar graph', N_GRM)

GW = 'The tests parse some hundreds of sentences; an alternative tried in another order, an optional part moved, or a look-ahead dropped shows only for a text that needs just that.'
gram('P05', 'A word is matched by its class, with bahe and indicators, not before bu or zei',
     "A rule for a word class matches exactly a token of that class, preceded by any number of ba'e, and followed by indicators, which it takes along. It does not match if bu or zei comes after that. Classes used inside quotes, letters and indicators take no ba'e or no indicators.",
     GW, [SLM], [('word rules', SLM + ': token_types, selmaho_raw')])
gram('P06', "Quotes and zei compounds take exactly the tokens they quote or join",
     "lo'u takes all tokens up to the first le'u, and must have one; zo takes exactly one token of any class; zoi takes the opening delimiter, the text if there is any, and the closing delimiter; lu takes a whole text and li'u may be left out. A zei compound is a word (with any ba'e), bu and zei parts, with at least one zei at the end, then indicators but neither zei nor bu.",
     GW, [GRM], [('quotes', GRM + ': LohuSumti, LuSumti, ZoSumti, ZoiSumti, ZoiDelimiter, ZoiText'), ('compounds', GRM + ': ZeiClause, ZeiBuInner, ZeiTail')])
gram('P10', 'Texts are paragraphs of sentences and fragments, as the grammar lays them out',
     "A text is optional indicators and frees, an optional paragraph separator, paragraphs of items separated by .i, and an optional fa'o. An item is sentences if that uses up at least one token, else a fragment, else empty. Connected sentences bind as connected by bo most closely, then by a connective; tu'e groups hold whole paragraphs.",
     GW, [GRM], [('texts', GRM + ': Text, Paragraphs, Paragraph, ParagraphItem, Fragment'), ('sentence grouping', GRM + ': Sentences1, Sentences3, SentenceSeparator')])
gram('P11', 'Bridi tails, and how they connect, are as the grammar lays them out',
     "A sentence is terms and an optional tail with an optional cu; a tail is a selbri with terms, or a forethought connection, and tails connect by gi'e with bo most closely, then plain, then with ke. A plain gi'e connection is not taken where an optional tag and ke follow.",
     GW, [GRM], [('tails', GRM + ': Sentence, SentenceTail to SentenceTail4, SentenceTail1After to SentenceTail3After, SentenceTail2Connective'), ('forethought', GRM + ': GekSentence, Subsentence'), ('terms', GRM + ': TailArgs, Prenex')])
gram('P12', 'Terms and term sets are as the grammar lays them out',
     "A term is, in this order of preference, a tagged one, a sumti with or without fa, na ku, or a term set; terms join by ce'e, and those by pe'e with a connective. Term sets are, in this order, forethought without nu'i, forethought with nu'i, and plain nu'i with an optional nu'u.",
     GW, [GRM], [('terms', GRM + ': Args, Arg, Arg1, Arg2, Arg3, PeheConnective'), ('term sets', GRM + ': Termset')])
gram('P13', 'Selbri and tanru group as the grammar lays them out',
     "A selbri is any na and tags before components separated by co; within those, tanru of units that connect by bo most closely, then by connectives, with forethought connection inside. ke groups hold no co and no na or tags, and a unit takes its modifiers before it and its bound arguments after it.",
     GW, [GRM], [('selbri', GRM + ': Selbri to Selbri6, SelbriBefore'), ('units', GRM + ': TanruUnit, TanruUnit1, TanruUnit2, BeforeTanruUnit, BoundArguments')])
gram('P14', 'Tags are as the grammar lays them out, and never empty',
     "A tag is one or more tag words with connectives; a word is a modal with its na'e, se, nai and ki, or a run of tense parts, or ki, or cu'e, or fi'o with a selbri. Each tense part is in its fixed inner order and holds at least one word. A tag takes a sumti or ku only if neither a forethought gi nor ke follows.",
     GW, [GRM, HLP], [('tags', GRM + ': Tag, TagValue, TagWord'), ('tenses', GRM + ': Time, TimeOffset, TimeDuration, Space, SpaceOffset, SpaceInterval, SpaceMotion, IntervalProperty'), ('either or both', HLP + ': EitherOrBoth')])
gram('P15', 'Sumti and relative clauses are as the grammar lays them out',
     "A sumti is an optionally quantified component, or a quantified selbri, connected by bo most closely, then by connectives, with forethought connection in front, relative clauses joined by zi'e inside and by vu'o outside. A description is a gadri, optional possessor and relative clauses, then a selbri or a quantified sumti, with ku; la may be followed by a run of names instead, but only after the description was tried.",
     GW, [GRM], [('sumti', GRM + ': Sumti to Sumti4, SumtiComponent1, ModifiedSumti'), ('descriptions', GRM + ': GadriSumti, GadriSumtiPre, GadriSumtiContents, LaSumti'), ('relative clauses', GRM + ': RelativeClauses, GoiRelativeClause, NoiRelativeClause, VuhoRelative')])
gram('P16', 'Quantifiers, numbers and letters are as the grammar lays them out',
     "A number starts with a digit word and goes on with digit words and letters; a letter string starts with a letter; neither is taken before moi where it could be a quantifier or sumti. A letter is a letter word, any one word but a few with bu after it, or a compound of them that tei opens and foi must close.",
     GW, [GRM], [('numbers', GRM + ': Quantifier, Number, NumberRest, MiscNumbers, LerfuString'), ('letters', GRM + ': LerfuWord, Lerfu, BuInner')])
gram('P17', 'Mathematical expressions are as the grammar lays them out',
     "An expression is reverse Polish after fu'a, or infix, where bi'e binds more closely than a plain operator; operands and operators connect, group and convert as sumti and selbri do, and an operand is tried as a converted selbri, sumti, array, modified operand, parenthesis and number, in this order.",
     GW, [MEX], [('expressions', MEX + ': Expression, Expression1, ReversePolish, ForethoughtExpression'), ('operands', MEX + ': Operand to Operand3'), ('operators', MEX + ': Operator to Operator3, OperatorComponent')])
gram('P18', 'Connectives are as the grammar lays them out',
     "An afterthought connective is an optional na and se, the connective word, and an optional nai; a non-logical one has no na and may be an interval, which ga'o may enclose only on both sides at once. A forethought connective is a ga word, a non-logical connective with gi, or a tag with gi.",
     GW, [CON], [('connectives', CON + ': Ek, Jek, Gihek, Guhek, Joik, Interval, Gek, Gik, JoikJek, JoikEk')])
gram('P19', 'Asides, vocatives, subscripts and indicators are as the grammar lays them out',
     "A free is, in this order of preference, a sei aside, a soi aside, a vocative, an utterance ordinal, a parenthesis with a whole text, or a subscript; any number of them may stand wherever frees may. A vocative's value is a selbri, else names, else an optional sumti, with relative clauses on both sides; indicators are not taken where bu follows one.",
     GW, [GRM], [('frees', GRM + ': Frees, Free, SeiTail, Subscript, SubscriptValue'), ('vocatives', GRM + ': Vocative, VocativeWords, VocativeValue'), ('indicators', GRM + ': Indicators, Indicator')])
prop('P07', 'Every alternative of the grammar can be chosen, and every rule is used',
     'In every choice of the grammar each alternative is the result for some token sequence: none comes after another that always succeeds, so that it could never be reached. Every rule is used by the rule for a whole text, directly or through others.',
     'inputs', TOKS,
     'An alternative that can never be chosen makes no test fail; texts written for it are merely parsed as something else, or refused.',
     [GRM, CON, MEX, DPA], [('choices', DPA + ': alternatives in order of declaration'), ('rules that cannot fail', GRM + ': GadriSumtiPre, ParagraphItem, VocativeValue')],
     T_PEX + '; reachability with failure of rules computed as a least fixpoint',
     'Finds alternatives behind one that cannot fail; one whose every text is taken by an earlier alternative is not found. ' + N_PEX)
prop('P08', 'A rule gives up for good only where it has committed itself',
     "When a rule does not match, the alternatives after it are still tried, except after the points of no return: the closing ga'o of an interval, the foi of a tei compound, and the le'u of a lo'u quote, whose absence makes the whole parse fail. Such a failure is never turned into success or into an ordinary mismatch.",
     'inputs', TOKS,
     'A rule committed too early refuses texts that another alternative would have matched, and only those.',
     [GRM, CON, DPA], [('points of no return', GRM + ': LerfuWord, LohuSumti; ' + CON + ': Joik'), ('derived cuts', DPA)],
     T_PEX + '; outcome check of every failing step', N_PEX)
prop('P09', 'A refused text is reported where reading stopped, with what was expected',
     "When text is left over, the error is located at the first token left over. A word rule that does not match names exactly the class it tried and the token it found, or the end, and is located right after that token. Of the errors of alternatives the one furthest on is kept; at the same place those that found the same token are joined in order, and otherwise the later is kept.",
     'inputs', TOKS + '; every pair of errors',
     'The tests of the parser compare trees of texts that parse; what a refused text reports is not compared for any rule.',
     [ERR, SLM, CST, PTR], [('merging', ERR + ': WithLocation::or'), ('word rules', SLM + ': token_types, selmaho_raw'), ('entry point', CST + ': Cst::parse')],
     T_PEX + ' with errors executed; evaluation of the merge for every kind and order of errors',
     'Which of the errors of a whole rule survives is not compared: only how two are merged, and what each step makes. ' + N_PEX)
prop('P20', 'Parsing always comes to an end',
     'No rule can come back to itself at the same position in the tokens, directly or through others, and every repetition uses up a token each time round. So every parse ends, whatever the tokens.',
     'inputs', TOKS,
     'A left recursion or an empty repetition on a path no test takes hangs or overflows the stack only for the text that takes it.',
     [GRM, CON, MEX, SLM, HLP], [('rules', GRM), ('repetition', HLP + ': many0, many1')],
     T_PEX + '; acyclicity of the same-position relation, and a progress argument for every repetition',
     'Termination only: neither the running time, which can be exponential, nor the depth of the stack is bounded. ' + N_PEX)
prop('P21', 'Parsing and walking the tree never panic',
     'No sequence of tokens makes a parsing rule panic, and no node makes a traversal, location or mark method panic.',
     'inputs', TOKS + '; every node of every kind',
     'An unwrap or index that fails only on one path of one of some thousand functions is not met by sample sentences.',
     [GRM, SLM, HLP, CON, MEX, TRN, PTR], [('rules', GRM), ('traversal', TRN)],
     T_PEX + '; reachability of panics and range proof of arithmetic', 'Running out of memory or stack is excluded. ' + N_PEX)

# ------------------------------------------------------------------ the whole of it
AMB = 'effect analysis of the typed program'
prop('R01', 'Splitting text into words and tokens never panics',
     'No input makes the word iterator, the tokeniser, the recognisers, or the spelling, classification and span functions panic, by an index or slice out of range, arithmetic out of range, a failed assertion or an unwrapped nothing. This holds for any text and any order of calls, with logging on or off.',
     ['inputs', 'histories'], HIST,
     'Tests feed well-formed words and sentences; a panic needs a slice at the wrong byte of a text nobody wrote down, such as a multi-byte letter next to a fallen-off cmavo.',
     [DEC, LEX, RUL, CLS, SPN], [('slicing by offsets', DEC + ': decompose_single'), ('pointer differences', RUL + ': seq'), ('quote ends', LEX + ': Lexer::next'), ('trace level', RUL + ': debug_rule_end')],
     T_MON + '; range proof of every arithmetic step, index and slice; dataflow over the trace level',
     'Every path over a symbolic text. Running out of memory or stack is excluded. ' + N_MON)
prop('R02', 'Splitting text into words and tokens always comes to an end',
     'For every finite text, each call that asks for a word or token returns, and after finitely many calls nothing is left. No recogniser can come back to itself on the same text, and every repetition uses up text each time round.',
     ['inputs', 'histories'], HIST,
     'An endless loop shows only for the text that keeps a look-ahead from moving on; tests hold a few hundred texts.',
     [DEC, LEX, RUL], [('chunk loop', DEC + ': Decomposer::next'), ('quotes', LEX + ': Lexer::next'), ('repetition', RUL + ': repeat, eat_commas')],
     'abstract interpretation of MIR to behaviour graphs; size-change termination of every loop over cursor positions, acyclicity of recognisers at the same place',
     'Termination only: running time is not bounded, and is exponential for some texts. Depth of recursion is bounded by the text, not by the stack.')
prop('R03', 'Results depend on nothing but the text',
     'The same text gives the same words, tokens and tree every time, on every thread, whatever was processed before, whether or not logging is on, and whatever was already allocated in the arena. No clock, random source, environment, file or state that outlives a call has any influence.',
     ['histories', 'schedules', 'configurations'], 'every history of earlier calls, on any threads, with logging at any level',
     'Tests run each text once in a fresh process with logging off; state carried over from one call to the next, or tied to logging, shows in no single run.',
     [RUL, DEC, LEX, PTR, 'src/parse/arena.rs'], [('trace level', RUL + ': PARSER_LEVEL'), ('log statements', RUL + ': debug_rule_start, debug_rule_end'), ('arena', 'src/parse/arena.rs')],
     AMB + ': calls, statics, log regions; dataflow that the trace level is balanced',
     'All functions of the crate. Ambient input is recognised by the standard functions that give it; that crates used depend on nothing either is trusted. Addresses used only in differences are taken as harmless.')
prop('R04', 'The library holds no unsafe code',
     "No function or block of the library is unsafe, derived code included, so that memory safety and freedom from data races follow from the compiler's checks for every input and every use from any number of threads.",
     ['inputs', 'schedules', 'programs'], 'every input, caller and thread',
     'Tests pass just as well with undefined behaviour that happens to do no harm on their inputs.',
     ['src/lib.rs', PTR, 'src/parse/arena.rs', DPA], [('arena', 'src/parse/arena.rs'), ('derived code', DPA)],
     'query over the typed program (HIR) for unsafe blocks, functions and impls',
     'Code of the standard library and of dependencies is trusted to be sound.')


# ------------------------------------------------------------------ out of reach
NA = []


def na(pid, title, statement, over, text, why, files, mech, reason):
    n = len(P)
    prop(pid, title, statement, over, text, why, files, mech, None, None)
    NA.append((P.pop(n)[0], reason))


na('N01', 'Splitting and parsing take time bounded by a small polynomial of the text',
   'The time to split a text into words and tokens, and to parse the tokens, grows no faster than a small power of its length.',
   'inputs', ANYTEXT,
   'Tests have short texts; backtracking shows its cost only for texts made for it.',
   [DEC, RUL, DPA], [('backtracking recognisers', RUL), ('ordered choice without memory', DPA)],
   'The numbers of steps are runtime quantities: a sound static bound would need the ambiguity of each recogniser and rule, for which there is no cost analysis in reach. '
   'It is known not to hold: recognisers and rules backtrack without memory, so nested forethought forms cost exponential time.')
na('N02', 'Deeply nested or very long texts never exhaust the stack or memory',
   'No text, however deeply nested or long, makes splitting or parsing exhaust the stack; memory used stays proportional to the text.',
   'inputs', ANYTEXT,
   'Tests nest a few levels; the depth at which a thread runs out depends on the build and the thread.',
   [RUL, GRM], [('recursive recognisers', RUL), ('recursive rules', GRM)],
   'Frame sizes and stack limits are decided by the code generator and the embedding program, not by the source. The recursion depth itself is unbounded (parentheses nest), so the property does not hold for small stacks; what can be decided statically, that every recursion ends, is R02 and P20.')
na('N03', 'The words and trees are those the official grammar gives',
   'For every text, the words, classes and tree are the ones that the reference grammar of the language, where this library does not deliberately differ, assigns.',
   'inputs', ANYTEXT,
   'The tests compare with readings chosen by the author.',
   [RUL, GRM, 'src/srasu.txt'], [('grammar', GRM), ('recognisers', RUL)],
   'The reference (the book and the PEG of other tools) is not in the repository, and equivalence of two ordered-choice grammars is undecidable. The checks compare with the grammar of this library as it was reviewed (P05-P06, P10-P19, M01-M09), where changes of reading are violations.')
na('N04', 'Readings of texts are the ones their writers mean',
   'Where the grammar allows several readings, the tree is the one a fluent speaker expects.',
   'inputs', 'every text that parses',
   'It is a matter of judgement.',
   [GRM, 'discussions'], [('order of alternatives', GRM)],
   'There is no oracle for the intended reading in the source. The order of alternatives itself is fixed by P10-P19, and that none is dead by P07.')
