#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place where the properties are worded)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                          'observe_at': observe, 'hook_needed': hook}})


prop('P01', 'jbofihe never crashes, corrupts memory or hangs, whatever text it is given',
     'For any byte sequence given as text and any combination of the documented options, jbofihe terminates by itself with one of the '
     'documented exit statuses (0 to 3) and never by a signal, a failed internal assertion or its "unexpected error" handler. '
     'While doing so it never reads or writes outside an object, uses freed memory or executes undefined behaviour.',
     ['inputs', 'configurations'], 'every text (lojban, near-lojban, garbage bytes, words and quotations of hundreds of letters, thousands of words, deep nesting up to what the C stack and the parser stack are set to) x every option combination x every well-formed dictionary (redirections that end)',
     'The tests run about 230 short well-behaved texts without instrumentation; buffers, fixed-size tables and assertions are reached only by unusual words, lengths, and nestings.',
     ['lex1.c', 'lex2.c', 'erasure.c', 'categ.c', 'rpc2x.y', 'terms.c', 'output.c', 'translate.c', 'textout.c', 'textblk.c', 'htmlout.c', 'latex.c', 'latexblk.c', 'tree.c', 'elide.c', 'tracebk.c', 'morf.c', 'bccheck.c', 'canonluj.c', 'main.c'],
     [('bounds and null checks in each pass', 'all listed files'), ('tree allocation and growth', 'functions.c, memory.c')],
     ['process exit status and signals of sanitizer-instrumented jbofihe', 'sanitizer reports'])

prop('P02', 'The companion tools never crash, corrupt memory or hang on any input',
     'For any input and any command line, cmafihe, vlatai, jvocuhadju, smujajgau and dfasyn terminate by themselves with an exit status and never by a signal or a failed internal assertion. '
     'While doing so they never read or write outside an object, use freed memory or execute undefined behaviour.',
     ['inputs', 'configurations'], 'every standard input, argument vector, dictionary source file and state-machine description',
     'The tests give these tools a few dozen well-formed inputs in an uninstrumented build.',
     ['cm_main.c', 'cm_scan.l', 'cm_gather.c', 'cm_output.c', 'cm_translate.c', 'jvocuhadju.c', 'lujvofns.c', 'smujajgau.c', 'morf.c', 'dictaccs.c', 'dfasyn/n2d.c', 'dfasyn/expr.c', 'dfasyn/tabcompr.c'],
     [('bounds checks', 'all listed files')], ['process exit status and signals of sanitizer-instrumented tools', 'sanitizer reports'])

prop('P03', 'Output is a function of the input only, never of stale or uninitialised memory',
     'Running any of the programs again on the same input, options and dictionary gives byte-for-byte the same output and exit status, whatever the state of memory, environment size, way of supplying the text (file, pipe, one byte at a time) or other runs before it. '
     'No branch taken and no byte written ever depends on memory that was never initialised.',
     ['inputs', 'configurations', 'histories'], 'every input and option set of jbofihe, cmafihe, vlatai, jvocuhadju and smujajgau, under any memory layout',
     'Each test runs once in one memory layout, where fresh memory happens to be zero.',
     ['terms.c', 'functions.c', 'categ.c', 'lex1.c', 'lex2.c', 'output.c', 'lujvofns.c', 'morf.c', 'smujajgau.c', 'memory.c'],
     [('node and buffer initialisation', 'functions.c, memory.c')], ['MemorySanitizer reports', 'stdout/stderr/exit status of repeated runs with perturbed memory'])

prop('P04', 'Every word is classified by the rules of Lojban morphology',
     'For every string, vlatai and jbofihe agree with the published Lojban morphology on whether it is a cmavo (or cmavo compound), gismu, lujvo, stage-1 to stage-4 fu\'ivla, cmene or not a word: permissible consonant pairs, triples and initial clusters, the slinku\'i and tosmabru tests, hyphen letters, the banned la/lai/doi in cmene, and the -cr/-el relaxations. '
     'The decomposition reported for a lujvo, compound or leading-cmavo cluster concatenates back to the word.',
     ['inputs'], 'every string over the Lojban alphabet plus apostrophe, comma, period, digits and capitals, of any length',
     'The tests list a few thousand gismu and some hundred hand-picked words; the space of word shapes is infinite and the decision is made by a generated automaton from which no single sample can vouch for the others.',
     ['morf.c', 'morf_nfa.in', 'bccheck.c', 'bctables.in', 'mk_fetab.pl', 'mk_vfetab.pl', 'mk_enctab.pl', 'lex1.c', 'dfasyn/n2d.c'],
     [('word automaton generated from a state-machine description', 'morf_nfa.in, dfasyn'), ('consonant pair/triple tables', 'bctables.in, bccheck.c'), ('cmene and fuhivla special tests', 'morf.c, bccheck.c')],
     ['vlatai standard output', 'jbofihe -k token list and invalid-word reports'])

prop('P05', 'Layout and spelling variants never change how a text is read',
     'Replacing separators by other separators (spaces, tabs, newlines, periods), joining cmavo into compounds or splitting them, writing digits for the number cmavo, or inserting syllable commas in brivla never changes which words are read nor the parse. '
     'Every word of the text appears exactly once and in order in the token list, each with the line and column at which it stands.',
     ['inputs'], 'every text and every sequence of layout-only rewrites of it (stress shown by capitals decides where names and brivla end and is not layout; text inside zoi quotations is compared modulo the line ends and blanks it is written with)',
     'Tests fix one layout per text.',
     ['lex1.c', 'morf.c', 'uncom.l', 'cmavotab.c'], [('word splitter', 'lex1.c'), ('cmavo compound splitter', 'lex1.c, morf.c')],
     ['jbofihe -k token lists', 'jbofihe -t/-x output', 'error locations'])

prop('P06', 'Quotations, zei, bu and indicators are absorbed exactly as the language defines',
     'A zo takes exactly the next word, a zoi or la\'o takes everything up to the next occurrence of its own delimiter standing as a word, and lo\'u takes everything up to le\'u, and quoted words never take part in erasure, joining, attachment or the parse. '
     'X zei Y [zei Z...] becomes one verb word, any word followed by bu becomes one letter word, ba\'e and indicators (with nai) attach to the word they modify and never change whether the text is grammatical; words read before and after are not affected.',
     ['inputs'], 'every sequence of words mixing these magic words (text inside zoi modulo blanks, periods and comments, which separate there too)',
     'The tests sample a few dozen interactions of magic words; the combinations are unbounded.',
     ['lex1.c', 'lex2.c'], [('first lexing pass with quotes', 'lex1.c'), ('preprocessing pass: zei, bu, bahe, indicators', 'lex2.c')],
     ['jbofihe -k token lists before and after preprocessing', 'jbofihe -t trees', 'exit status'])

prop('P07', 'Erasure words remove exactly the words the language says they remove',
     'After processing, a text containing si, sa and su reads exactly like the text with the erased words taken out: each si removes itself and one preceding word (a quotation counting by its own words: zo two, lo\'u three, zoi four, a part of one leaving it broken), sa removes back to and including the last word of the same grammatical class as the word that follows it, su removes back to and including the last ni\'o, lu, tu\'e or to, or to the start of the text. '
     'Words that are not erased keep their order and identity, and quoted erasure words erase nothing.',
     ['inputs', 'histories'], 'every sequence of words and erasure words, including runs of erasure words, erasure at the start and end of the text, and erasure of quotations',
     'The tests cover about 60 fixed sequences; stack discipline over arbitrary sequences is what matters.',
     ['erasure.c', 'lex1.c'], [('erasure pass over the token list', 'erasure.c')], ['jbofihe -k token list', 'jbofihe -t tree compared with that of the text after hand erasure'])

prop('P08', 'A text is accepted exactly when the official Lojban grammar generates it',
     'With every elidable terminator written out, a text is accepted if and only if its sequence of word classes is derivable in the official grammar (bnf.300) and otherwise reported as a syntax error. '
     'With terminators elided, nothing outside the official grammar is accepted, and every text is accepted whose terminators were each left out where the word that follows could not have continued what they close.',
     ['inputs'], 'every sequence of words, grammatical or not, of any length and nesting',
     'About 200 fixed sentences cannot sample a grammar with some 100 rules and 120 word classes; both false acceptance and false rejection need an independent derivation check.',
     ['rpc2x.y', 'cmavotab.c', 'categ.c', 'tenses.c', 'stag_nfa.in', 'lex2.c', 'output2table.pl', 'terminator.pl'],
     [('grammar and error-recovery elision', 'rpc2x.y'), ('lookahead disambiguation markers', 'categ.c'), ('tense recogniser', 'stag_nfa.in')],
     ['exit status', 'syntax error reports', 'parse trees'])

prop('P09', 'The parse tree shown is a genuine derivation covering every word once',
     'Whenever a text is accepted, the tree displayed is a derivation of that very text: its leaves are exactly the words of the text, in order and each once with its right class, and every node with its children is an instance of a grammar rule. '
     'The compact tree, full tree and bracketed displays all show the same structure.',
     ['inputs', 'configurations'], 'every accepted text x every display option',
     'Tests compare a few dozen trees to recorded ones.',
     ['rpc2x.y', 'functions.c', 'tree.c', 'action.perl', 'textout.c'], [('node construction in grammar actions', 'rpc2x.y, functions.c'), ('tree printers', 'tree.c')],
     ['jbofihe -t, -tf, default, -x output'])

prop('P10', 'Elided terminators are reported truthfully and the texts round-trip',
     'Writing out the terminators that jbofihe reports as elided gives a text that is accepted when all terminators are required, with the same structure as the original; a text with a required terminator missing is refused in that mode. '
     'Each word that jbofihe says may be omitted can indeed be omitted without changing the structure (each alone and, from the shortened sequence it proposes, all together).',
     ['inputs', 'configurations'], 'every accepted text',
     'Tests compare a handful of recorded outputs; the claim quantifies over every text and every suggested rewriting of it.',
     ['elide.c', 'rpc2x.y', 'functions.c', 'output2elide.pl', 'terminator.pl', 'output.c'],
     [('missing-terminator nodes', 'functions.c, rpc2x.y'), ('elidability analysis from parser tables', 'elide.c, output2elide.pl')],
     ['jbofihe -ie, -re, -se, -sev output and exit status', '-t trees of rewritten texts'])

prop('P11', 'Exit status and diagnostics tell the truth about where and why a text fails',
     'The exit status is 0 exactly when the text is grammatical, 3 exactly when it contains an invalid word (each such word is reported with its position), and 1 or 2 exactly when parsing fails, and it is the same for every output option and dictionary. '
     'A syntax error names the first word (a tense, number, connective or other group the parser reads as one being one word) that cannot continue any grammatical text, with its true line and column, and every class -bt lists as possible there can continue it; nothing but diagnostics appears for a rejected text.',
     ['inputs', 'configurations'], 'every text, valid or not, x every output option',
     'The tests check a few error messages for fixed texts.',
     ['main.c', 'lex1.c', 'rpc2x.y', 'tracebk.c', 'errorscan.c', 'output2table.pl'],
     [('exit status selection', 'main.c'), ('syntax error handling', 'rpc2x.y'), ('backtrace report', 'tracebk.c')],
     ['exit status', 'stderr'])

prop('P12', 'All output formats carry the same words, glosses, tags and nesting',
     'For every accepted text the plain, block, HTML and LaTeX outputs present the same sequence of Lojban words, the same English glosses, the same place tags and properly nested brackets around the same groups. '
     'In the HTML the inline elements are balanced and every word and gloss is escaped, and the LaTeX braces and math signs are balanced. (A zoi quotation whose own text runs over a line end is not part of the block layouts.)',
     ['inputs', 'configurations'], 'every accepted text x every output format and width',
     'Tests exercise mostly one format per text and compare to recorded bytes.',
     ['output.c', 'textout.c', 'textblk.c', 'htmlout.c', 'latex.c', 'latexblk.c'], [('output driver interface shared by back ends', 'output.c, output.h')],
     ['jbofihe -x, -x -b, -H, -l, -l -b output'])

prop('P13', 'Each argument is tagged with the place of the predicate it really fills',
     'In the glossed output every argument is tagged with exactly the predicates and place numbers it fills under the rules of the language: order of appearance, se/te/ve/xe conversion, explicit fa..fu places, be/bei attachments, jai/fai, zo\'u prenexes, shared arguments of connected bridi tails and abstraction scopes. '
     'No argument is tagged for a predicate it does not belong to, and no filled place goes untagged. Arguments inside termsets, the places of connected abstractors (nu joi ka), and the x1 that a bare jai (without a tense or modal) makes, are outside this statement.',
     ['inputs'], 'every accepted text, any number of arguments, conversions and connected predicates',
     'Tests show a few dozen sentences; the interaction of conversion, explicit places, linked and shared arguments is combinatorial.',
     ['terms.c', 'conversion.c', 'output.c', 'relative.c', 'connect.c'], [('place assignment walk', 'terms.c'), ('conversion permutation', 'conversion.c')],
     ['tags in jbofihe -x output'])

prop('P14', 'Every gloss printed is the dictionary\'s own entry for that word',
     'The English shown for a word is the one the dictionary in force gives for that word in that grammatical use and place, and falls back to the documented default forms derived from the same word\'s entries when that entry is absent. '
     'A word that is not in the dictionary is never given another word\'s gloss.',
     ['inputs', 'configurations'], 'every word and grammatical context x every dictionary content (redirections that end, glosses of up to a few thousand characters)',
     'Tests use the bundled dictionary and a few words.',
     ['translate.c', 'dictaccs.c', 'output.c', 'canonluj.c', 'cm_translate.c'], [('translation fallback chain', 'translate.c'), ('dictionary binary search', 'dictaccs.c')],
     ['glosses in jbofihe -x and -x -b output with generated dictionaries'])

prop('P15', 'Compiling dictionaries loses, invents and reorders nothing',
     'The file smujajgau writes contains exactly one entry per distinct key of its source files, with the value from the last source that defines it and with the documented replacement of a whole family of forms, sorted so that every entry can be found, regardless of the order, size or number of sources and of comments and blank lines. '
     'Compiling the same sources again gives the same bytes.',
     ['inputs', 'histories'], 'every list of dictionary source files (an entry whose key or value is longer than the 255 bytes the format holds is refused with a message)',
     'No test inspects compiled dictionaries; the bundled sources are one sample.',
     ['smujajgau.c', 'canonluj.c'], [('balanced tree / list insertion, override and deletion', 'smujajgau.c'), ('file writer', 'smujajgau.c')],
     ['bytes of compiled dictionaries'])

prop('P16', 'Every compiled entry is found and nothing else, in every access mode',
     'For every dictionary and key, a lookup finds the entry if and only if it was compiled in, and returns its exact value, whether the dictionary is memory-mapped, read into memory or embedded in the program, and wherever in the file the key sorts. '
     'All these configurations give identical program output; a damaged dictionary is refused with a message rather than misread, and without a dictionary the parse is the same and no word has a gloss.',
     ['inputs', 'configurations'], 'every dictionary x key x build configuration',
     'Tests run one build configuration with one dictionary.',
     ['dictaccs.c', 'dict2inc.pl', 'config.pl', 'cm_translate.c'], [('binary search over offsets', 'dictaccs.c')],
     ['glosses printed by jbofihe and cmafihe built in each configuration'])

prop('P17', 'jvocuhadju lists exactly the valid lujvo of its components, correctly scored',
     'For every sequence of component words jvocuhadju builds exactly the lujvo obtainable from their rafsi (short forms, and long forms when asked), each with the hyphens the morphology requires and no others, each scored by the published formula, listed in ascending score order with the best marked. '
     'Every lujvo it lists is classified as a lujvo by the word classifier; unknown components are refused.',
     ['inputs', 'configurations'], 'every sequence of 2 to 49 gismu, cmavo and cmene components with at most 65536 results x options',
     'The tests compare 16 recorded invocations.',
     ['jvocuhadju.c', 'lujvofns.c', 'reduced_gismu', 'reduced_cmavo', 'lujvod.pl'], [('rafsi combination, hyphenation and scoring', 'jvocuhadju.c, lujvofns.c')],
     ['jvocuhadju standard output', 'vlatai classification of it'])

prop('P18', 'A lujvo is taken apart into exactly the components it was made from',
     'Taking a valid lujvo apart yields the sequence of source words whose rafsi it concatenates, so that building and analysing are inverse to each other and all the lujvo forms of one component sequence get the same canonical form, are matched by the same lujvo patterns of the dictionary, and have the same fallback gloss when none is listed. '
     'Words that are not lujvo are never analysed as if they were.',
     ['inputs'], 'every lujvo form of every component sequence',
     'The tests analyse a dozen lujvo.',
     ['canonluj.c', 'canonluj.pl', 'lujvofns.c', 'translate.c', 'smujajgau.c', 'morf.c'], [('canonical form computation', 'canonluj.c')],
     ['dictionary entries compiled for lujvo', 'glosses of variant forms', 'vlatai split output'])

prop('P19', 'cmafihe glosses every word of any text in order, grammatical or not',
     'For any text cmafihe outputs every word of it exactly once, in order and line by line, each with its own dictionary gloss (or a fallback derived from its components), whatever the grammaticality of the text. '
     'Its output modes and line width change only the layout. (Texts of lojban words, separated by blanks and periods, with comments in parentheses.)',
     ['inputs', 'configurations'], 'every text of lojban words x output mode x width (a comment running over several lines is shown only in the plain layout)',
     'One test file of a few lines.',
     ['cm_main.c', 'cm_scan.l', 'cm_gather.c', 'cm_output.c', 'cm_translate.c', 'lex1.c'], [('line buffering and word output', 'cm_output.c'), ('fallback chain', 'cm_translate.c')],
     ['cmafihe standard output'])

prop('P20', 'Generated state machines accept exactly what their description says',
     'For every state-machine description and every input sequence, the tables that dfasyn generates reach the same result (attribute, tag or failure) at the same point as direct simulation of the description, including result priorities expressed by its boolean rules. '
     'Compressing or minimising the tables never changes any result.',
     ['programs', 'inputs'], 'every valid description (of up to some hundreds of states and 256 tokens) x every input sequence',
     'The two bundled descriptions are only tested through a few hundred words.',
     ['dfasyn/n2d.c', 'dfasyn/expr.c', 'dfasyn/compdfa.c', 'dfasyn/tabcompr.c', 'dfasyn/parse.y', 'dfasyn/scan.l'],
     [('subset construction', 'dfasyn/n2d.c'), ('minimisation', 'dfasyn/compdfa.c'), ('table compression', 'dfasyn/tabcompr.c'), ('boolean result rules', 'dfasyn/expr.c')],
     ['compiled generated tables run on input sequences'])

prop('P21', 'Output layout respects the requested width and never drops or splits text',
     'In the block formats of jbofihe and cmafihe (-b) no line is longer than the width asked for with -w (80 if none is) unless it holds a single item that is wider, rulers between paragraphs aside, and at every width the rows joined together are the same text as at any other. '
     'The word, tag and gloss of an item always start in the same column of the same group of lines. The other formats have no line width: -w changes no text in them.',
     ['inputs', 'configurations'], 'every accepted text x every width',
     'Tests use the default width almost exclusively.',
     ['textout.c', 'textblk.c', 'cm_output.c', 'main.c'], [('line filling', 'textout.c'), ('column alignment', 'textblk.c, cm_output.c')],
     ['jbofihe -x -w N, -x -b -w N, cmafihe -w N output'])

prop('P22', 'Long and composite texts parse as the composition of their parts',
     'Joining grammatical texts with .i or ni\'o gives a text that is accepted and whose trees, brackets, place tags and glosses are those of the parts in order, unchanged but for the bracket numbers; this holds for thousands of parts and tens of thousands of words. '
     'Wrapping a grammatical text in lu...li\'u, to...toi or tu\'e...tu\'u, hundreds of levels deep, is accepted and shows the same structure inside. (Parts that leave a lu, to or tu\'e open, or begin or end with something that joins texts, are not joined.)',
     ['inputs'], 'every sequence of accepted texts, up to tens of thousands of words',
     'Tests are single sentences.',
     ['rpc2x.y', 'functions.c', 'memory.c', 'lex1.c', 'lex2.c', 'categ.c', 'terms.c', 'output.c'], [('growing node and word arrays', 'functions.c, lex1.c')],
     ['jbofihe -t and -x output of parts and whole'])

prop('P23', 'Connectives, tenses, modals, attitudinals are glossed by what they mean together',
     'A logical connective, before, between or around what it joins (A, JA, GIhA, GA, GUhA), gets the gloss of the truth function it has together with its na, se and nai; after a tag or JOI with gi, the meaning of the tag or JOI stands between the parts. '
     'Tense compounds (pu with nai and zi, interval and number words) and single tense words get the entry for the whole and for the context they stand in (before a sumti, in a description, before a selbri, linking, connecting, with jai), falling back to the plain entry and then to the parts; '
     'a converted modal (se BAI) gets its own entry; an attitudinal is glossed with its nai and degree in one; the gloss of ke\'a carries the number of the bracket around exactly the sumti its relative clause belongs to. Attached indicators and ba\'e change none of these.',
     ['inputs'], 'every accepted text x every dictionary',
     'The existing tests look at acceptance only; no test reads a gloss.',
     ['connect.c', 'tenses.c', 'conversion.c', 'relative.c', 'output.c'], [('truth table', 'connect.c'), ('context of a tense', 'tenses.c'), ('whole-cluster lookup and connective glosses', 'output.c'), ('antecedents', 'relative.c')],
     ['jbofihe -H output', 'jbofihe -tf output'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties', [p['id'] for p in P if len(p['title']) > 80])
