#!/usr/bin/env python3
"""Writes properties.jsonl. The text of the properties is kept here because it is easier to edit."""
import json, os
HG='gb/hypergraph/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append({'id':id,'title':title,'statement':statement,
      'quantifier':{'over':over,'text':text},'why_tests_cant':why,
      'anchors':{'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],
                 'state':[{'name':n,'meaning':m,'where':w} for n,m,w in state],
                 'observe_at':list(observe),'hook_needed':hook}})

VERT=('vertices table','id, degree and timestamp of every vertex ever mentioned',HG+'sqlite.py')
PERM=('perms table','one row per permutation of each stored edge, the index of all queries',HG+'sqlite.py')

p('S01','The hypergraph is a set of edges',
 'After any sequence of additions, removals and erasures, an edge exists exactly when it was added after it was last removed or the hypergraph was last erased. Adding an edge that is already there, removing one that is not, and any query, change nothing that can be observed. Two edges are the same exactly when they have the same vertices in the same order with the same written form, so no other edge (a permutation, a prefix, an extension, a part, one with 7 instead of 7.0) is affected.',
 ['histories','inputs'],'every sequence of add/remove/destroy (single and multiple) over edges of any arity from 2, with symbols, integers, floats and nested edges as vertices',
 'The tests add and remove one edge at a time, always one that was not there or was there, of arity 3, with at most one other edge present.',
 [HG+'sql.py',HG+'hypergraph.py',HG+'sqlite.py'],[('exists check before writing or deleting','SQL.add_raw, SQL.remove_raw'),('permutation rows','SQL.write_edge_permutations, SQL.remove_edge_permutations')],[VERT,PERM],['exists','pattern2edges with wildcards'])
p('S02','A pattern query returns exactly the edges that match',
 'For any stored set of edges and any pattern of vertices and wildcards, with the wildcards anywhere and in any number (none and all included), the result is exactly the set of stored edges with the length of the pattern that have the given vertices at the given positions. Vertices of the pattern can be symbols, numbers or edges.',
 ['inputs','histories'],'every pattern over every reachable set of edges',
 'Four patterns over two edges of arity 3 are tested; no pattern with repeated vertices, numbers, all wildcards, other arities, symbols that are prefixes of others, or removed edges.',
 [HG+'sql.py',HG+'edge.py'],[('range query on the permutation index, then filter','SQL.pattern2edges, edge_matches_pattern'),('inverse permutation','cur2edges, unpermutate')],[PERM],['pattern2edges'])
p('S03','The star of a vertex is exactly the edges that contain it',
 'For any stored set of edges and any vertex (symbol, number or edge), star returns exactly the stored edges that have that vertex as a direct element, at any position including the first. Vertices that only share a prefix with it, or that only appear inside a nested edge, do not count.',
 ['inputs','histories'],'every vertex over every reachable set of edges',
 'One star with one edge is tested; a nested edge as the center never is.',
 [HG+'sql.py',HG+'edge.py'],[('prefix range query on the permutation index','SQL.str2perms'),('splitting of rows into tokens','split_edge_str')],[PERM],['star'])
p('S04','Search by root finds exactly the symbols with that root',
 'For any stored set of edges and any root, symbols_with_root returns exactly the symbols root/namespace that are direct elements of some stored edge: not the bare root, not symbols whose root only starts with it, not symbols left without edges by a removal, and not symbols that appear only inside a nested edge.',
 ['inputs','histories'],'every root over every reachable set of edges',
 'One root with two symbols is tested.',
 [HG+'sql.py'],[('prefix range query','SQL.symbols_with_root')],[PERM],['symbols_with_root'])
p('S05','Degrees count the edges of each vertex',
 'At any time the degree of a vertex (symbol, number or edge) is the number of times it is a direct element of the stored edges, counting every position, and 0 for anything that is in none. This holds whatever the order in which an edge and the edges that contain it are added and removed; a degree is never negative and never stale.',
 ['histories'],'every sequence of add/remove/destroy in which edges share vertices, repeat vertices, and contain other edges',
 'One history of two edges with different connectors is tested; never an edge as a vertex, a repeated vertex, a repeated addition or removal.',
 [HG+'sql.py'],[('incremental degree updates','SQL.add_raw, SQL.remove_raw, SQL.inc_degree, SQL.dec_degree'),('degree kept when an edge row is replaced','SQL.replace_vertex')],[VERT],['degree','f_all'])
p('S06','Timestamps are those of the first mention',
 'The timestamp of a stored edge is the one given when it was added (-1 if none), whatever is added later, and it is -1 again once the edge is removed. The timestamp of an atomic vertex is the one of the addition that first mentioned it since the hypergraph was created or erased, also after its edges are removed; a vertex never mentioned has -1.',
 ['histories'],'every sequence of add/remove/destroy with different timestamps, over edges that share vertices',
 'Two short histories with one timestamp are tested.',
 [HG+'sql.py'],[('timestamp written on insertion only','SQL.add_raw, SQL.add_str')],[VERT],['timestamp'])
p('S07','Enumeration visits every vertex once',
 'f_all applies the function once to each vertex, returning its results: every stored edge and every vertex of a stored edge is visited exactly once, with its value (types included) and its current degree. Anything else visited has degree 0 and was mentioned since the hypergraph was last erased. An enumeration left half way, or ended by an error of the function, changes nothing and has no effect on later ones. The hypergraph can be changed during an enumeration, by the function or by others: each vertex that is there before and after is still visited once, and the enumeration ends.',
 ['histories','inputs'],'every reachable set of edges',
 'One hypergraph of three edges is tested.',
 [HG+'sql.py'],[('scan of the vertices table','SQL.f_all')],[VERT],['f_all'])
p('S08','What is read back is what was stored',
 'Every edge returned by any query equals the edge that was added, with the same structure, order and types of all its vertices: symbols of any characters other than white space (with any parentheses balanced and not at the beginning) that do not read as numbers, integers of any size, finite floats, URLs, and edges nested to any depth that the recursion limit of Python allows (about 300), for any number of vertices. Vertices with names that mean something to SQL or are prefixes of one another do not interfere.',
 ['inputs'],'every edge built from an alphabet of awkward vertices, of arity 2 to 6, nested up to depth 3',
 'Seven edges of arity 3, all ASCII, are tested.',
 [HG+'sql.py',HG+'edge.py'],[('text encoding of edges','edge2str, str2edge, parsed_token, token_type'),('permutation number appended to each row','do_with_edge_permutations, unpermutate, nthperm')],[PERM],['pattern2edges','star','f_all'])
p('S09','Batches behave like the operations one by one',
 'Adding or removing several edges in one call, or running functions through batch_exec, has the same results, inside and after the batch, as performing the same operations one at a time in the same order. Functions in a batch can use every operation of the hypergraph, queries and multiple additions included, and see the effect of the previous ones.',
 ['histories'],'every sequence of operations, every way to group it into multi-edge calls and batches',
 'Batches of two functions with one addition or removal each are tested; no query is ever made inside a batch.',
 [HG+'sql.py',HG+'null.py'],[('shared cursor of the current transaction','SQL.transaction, SQL.open_cursor, SQL.close_cursor')],[('current cursor','set during a transaction','SQL.cur')],['all queries, inside and after the batch'])
p('S10','Acknowledged changes are durable and visible to others',
 'When an operation that changes an SQLite hypergraph returns, its effect is stored: it is seen by every other connection to the same database, and by whoever opens it later even if the process ends abruptly without closing anything. Opening an existing hypergraph changes nothing in it.',
 ['histories','crash_points'],'every sequence of operations, looking from another connection, and from a new process after an abrupt end, after each of them',
 'All tests look through the handle that made the change.',
 [HG+'sql.py',HG+'sqlite.py'],[('commit at the end of each transaction','SQL.transaction'),('tables created only if missing','SQLite.create_tables')],[VERT,PERM],['a second handle on the same file'])
p('S11','A crash never leaves half an operation',
 'If the process is killed, or the machine loses power, at any point during an addition, removal, erasure, batch or change of belief on an SQLite hypergraph, opening it again shows either all of the operation or none of it, and everything acknowledged before (after a loss of power, at most the last acknowledged operation that changed something can be missing, as a whole, if the disk had not yet recorded the removal of its journal file). What is then shown by all the queries is consistent.',
 ['crash_points','histories'],'every prefix of the sequence of file system operations of each history, with unsynchronised writes lost in every combination or cut short',
 'No test interrupts anything.',
 [HG+'sql.py',HG+'sqlite.py',HG+'hypergraph.py'],[('one transaction per operation','SQL.transaction'),('rollback journal','SQLite')],[VERT,PERM],['all queries after opening the database again'])
p('S12','A failed operation changes nothing',
 'If an operation that changes an SQLite hypergraph raises an error (a storage error at any point, an invalid edge in a list, or an error in a function of a batch), the hypergraph is as it was before it, and the handle stays usable: what is done next works and is stored as usual. This also holds inside a batch: if a function catches the error of an operation and goes on, the rest of the batch is stored without any part of that operation, or all of the batch fails.',
 ['fault_sequences','histories'],'an error injected at every database call of every operation, followed by other operations',
 'No test makes an operation fail.',
 [HG+'sql.py'],[('rollback and reset of the cursor','SQL.transaction')],[('current cursor','must not outlive a failed transaction','SQL.cur')],['all queries, through the same and other handles'])
p('S13','Connections to the same database do not interfere',
 'When several handles, in different threads or processes, change and query the same SQLite hypergraph at the same time, the result of each operation and the final hypergraph are those of the same operations executed one at a time in some order compatible with their real order. In particular an edge added by two of them is counted once. An enumeration that is not finished does not keep others from changing the hypergraph.',
 ['schedules'],'every interleaving, at the granularity of database calls, of two or three handles with one or two operations each',
 'All tests use one handle at a time.',
 [HG+'sql.py',HG+'sqlite.py',HG+'hypergraph.py'],[('write lock taken before reading','SQLite.begin_transaction')],[VERT,PERM],['results of operations','all queries at the end'])
p('S14','Removal by pattern removes exactly the matching edges',
 'remove_by_pattern removes all the stored edges that match the pattern and no other, with the degrees and queries as after removing them one by one. A pattern that nothing matches changes nothing.',
 ['histories','inputs'],'every pattern over every reachable set of edges',
 'It has no test.',
 [HG+'hypergraph.py',HG+'sql.py'],[('query, then removal of each result','HyperGraph.remove_by_pattern')],[VERT,PERM],['all queries'])
p('S15','A database that is already there keeps its content',
 'Opening an SQLite database made before shows exactly what it holds: each edge stored as its numbered permutations in the table perms, and each vertex with its degree and timestamp in the table vertices; every operation then works on it as on a hypergraph made by the same operations. Tables and columns that are missing (an interrupted creation, or a version without degrees or without timestamps) are added on opening, with degree 0 and timestamp -1 for the vertices that are there. If that can not be done, because of a storage error or of a lock that lasts too long, opening fails with an error and changes nothing that can be observed later; it never gives a hypergraph that does not work.',
 ['histories','inputs','fault_sequences'],'every reachable content of small hypergraphs, every subset of the tables and columns, every operation afterwards, an error at every point of opening',
 'The tests always start from a database that the same code has just created.',
 [HG+'sqlite.py',HG+'sql.py'],[('creation of what is missing','SQLite.create_tables, exec_or_ignore'),('form of the rows','do_with_edge_permutations, cur2edges')],[VERT,PERM],['all queries after opening'])
p('S16','Arguments and results belong to the caller',
 'No operation or query of a hypergraph (SQLite, null or buffered by a batch hypergraph), nor intersect, changes the collections it is given: edges, lists of edges, patterns, seeds, functions. Changing them afterwards, or changing what a query returned, has no effect on what is stored, on what is still in a buffer, or on later answers. Edges, patterns and lists of edges can be lists or tuples, at any level, with the same meaning, and what is read back is always tuples.',
 ['histories','inputs'],'every reachable set of edges and every operation, arguments as every mixture of lists and tuples, changed by the caller after each call',
 'The tests give tuples, which can not be changed, and never use a result twice.',
 [HG+'sql.py',HG+'hypergraph.py',HG+'batch_hypergraph.py',HG+'queries.py'],[('buffer of a batch hypergraph','BatchHyperGraph.add'),('sets built for each query','SQL.str2perms, SQL.pattern2edges')],[VERT,PERM],['arguments after each call','all queries, asked twice'])
p('B01','Beliefs are supported by exactly their sources',
 'After any sequence of beliefs added and removed, alone or several at once, the sources of an edge are exactly those that added it and have not removed it since. Adding a belief makes the fact exist; removing one removes only that link, and removes the fact itself exactly when no source is left.',
 ['histories'],'every sequence of add_belief, remove_belief, add and remove over facts (also nested ones) and sources, with timestamps',
 'One history of two sources and one fact is tested; never multiple beliefs in one call, or several facts.',
 [HG+'hypergraph.py',HG+'constants.py'],[('source edges','HyperGraph.add_belief, sources, remove_belief')],[VERT,PERM],['sources','exists','all queries'])
p('B02','Buffered loading gives the same hypergraph',
 'For any buffer size, a sequence of operations through a batch hypergraph followed by a flush leaves the underlying hypergraph exactly as the same operations made directly: edges, degrees, timestamps and sources. No edge is lost, reordered across a removal, or stored late once the buffer is over its limit, and flushing again or with nothing pending does no harm.',
 ['histories','configurations'],'every sequence of add, add_belief, remove, remove_belief, destroy and flush, for every small buffer size',
 'The batch hypergraph has no test.',
 [HG+'batch_hypergraph.py',HG+'hypergraph.py'],[('buffer flushed when larger than its limit','BatchHyperGraph.add, flush')],[('buffer','additions not stored yet','BatchHyperGraph.buffer')],['all queries on the underlying hypergraph'])
p('Q01','The ego of a vertex is the edges within a distance',
 'ego(center, depth) is the set of edges that contain the center or contain a vertex reached from it in fewer than depth steps, where each step goes from a vertex to any element other than the first of an edge that contains it. With depth 0 it is empty, and asking changes nothing.',
 ['inputs'],'every small hypergraph, center and depth',
 'It has no test.',
 [HG+'hypergraph.py'],[('recursion over the stars','HyperGraph.ego')],[],['ego'])
p('Q02','Intersection finds the edges on shortest connecting walks',
 'intersect(seeds) considers the edges within distance 2 of the seeds that have no element after the first with degree over 250, and the walks without repeated vertices from the first seed that stop as soon as they contain all seeds, each step going from a vertex to an element other than the first of an edge that contains it. A walk is kept if, for each of its vertices that is not a seed, it is as short as any walk through that vertex. The result is exactly the considered edges all of whose elements after the first belong to walks that are kept.',
 ['inputs'],'every small hypergraph and list of seeds',
 'It has no test.',
 [HG+'queries.py'],[('walk enumeration and filtering','walks, walks2wmap, valid_walk, intersect'),('exclusion of hubs','exclude_edge')],[],['intersect'])
p('E01','Text representation of edges is lossless',
 'For every edge and vertex, writing it as text and reading it back gives an equal value with the same structure and types, with or without the outer parentheses for an edge; splitting the text gives the texts of the direct elements in order. Different edges have different texts.',
 ['inputs'],'all edges up to a size over an alphabet of symbols, integers, floats, URLs and nested edges',
 'Five edges are tested, all starting with a symbol.',
 [HG+'edge.py'],[('writer','edge2str, nodes2str'),('reader','str2edge, split_edge_str, parsed_token, token_type')],[],['edge2str','str2edge','split_edge_str','nodes2str'])
p('E02','Permutation numbers are a bijection',
 'For every number of elements, the numbered permutations from 0 to n!-1 are all the different orders, in lexicographic order of positions, and undoing permutation k of a sequence permuted by k gives the original sequence.',
 ['inputs'],'all n up to 7 and all permutation numbers',
 'Only n=3 is tested.',
 [HG+'sql.py'],[('numbering','nthperm'),('inverse','unpermutate')],[],['nthperm','unpermutate','do_with_edge_permutations'])
p('E03','Negation is its own inverse',
 'A symbol is negative exactly when it starts with ~, and negating it changes only that: the negative of a symbol or edge is negative exactly when the original was not, negating twice gives the original, and the negative of an edge keeps all its elements after the first.',
 ['inputs'],'all symbols with at most one leading ~ and edges of any arity starting with a symbol',
 'One symbol and one edge are tested.',
 [HG+'symbol.py',HG+'edge.py'],[('leading ~','negative, is_negative')],[],['negative','is_negative'])
p('Y01','Symbols decompose into root and namespace',
 'A symbol built from parts has exactly those parts, its root is the first and its namespace the second (none if there is only one), and it is a root exactly when it has a single part. Numbers, URLs and edges are their own root and have no namespace, and each value has the type it was given as; as text for people a symbol is its root with spaces instead of _, and any other value is written as it is.',
 ['inputs'],'all sequences of parts over a small alphabet, numbers, URLs and near-URLs, edges',
 'Five values are tested.',
 [HG+'symbol.py'],[('separator /','build, parts, root, nspace, is_root'),('types','sym_type')],[],['build','parts','root','nspace','is_root','sym_type','symbol2str'])
p('Y02','Any string can be made into a valid symbol',
 'str2symbol turns any string into one that has no white space, slash or parenthesis and no upper case letter that has a lower case, only replacing each such separator by _ and upper case by lower case, and is unchanged by applying it again. Unless it is empty or reads as a number, the result can be used as a vertex, is a root, and is read back as the same symbol; symbol2str gives back a text of the same words.',
 ['inputs'],'all strings up to a length over an alphabet, and every single Unicode character in context',
 'It has no test.',
 [HG+'symbol.py'],[('replacements','str2symbol, symbol2str')],[],['str2symbol','symbol2str','edge round trip'])
p('Y03','Hashes are the documented 64-bit function, new meanings keep their root',
 'The hash of a string depends on nothing but the string: it is the hexadecimal form of the 64-bit wrapping recurrence h = 31*(h+c) over its characters, from the fixed prime. A new meaning of a root is a symbol with that root and a namespace with the given prefix followed by a hash, different each time; any other concept is returned unchanged.',
 ['inputs'],'all strings up to a length over an alphabet that includes non-ASCII characters; roots, non-roots and prefixes',
 'One hash is tested, new_meaning is not.',
 [HG+'symbol.py'],[('uint64 arithmetic','hashed'),('random namespace','new_meaning, random_hash')],[],['hashed','new_meaning'])
p('N01','The null backend accepts everything and stores nothing',
 'With the null backend every operation of the hypergraph succeeds, and after any sequence of them it is empty: nothing exists, every query gives an empty result, degrees are 0 and timestamps -1.',
 ['histories'],'every sequence of operations',
 'The tests check it after a few operations, at the backend and not at the hypergraph.',
 [HG+'null.py',HG+'hypergraph.py'],[('constant results','Null')],[],['all queries'])
p('M01','The MySQL backend follows the same contract',
 'Through a driver with the conventions of MySQL (its placeholders, autocommit, affected-row counts and error classes), any sequence of operations on the MySQL backend gives the same results as on the SQLite backend, and everything is committed when each operation returns. It connects with exactly the host, user, password and database it is given, and opening an existing database keeps its contents.',
 ['histories','configurations'],'every sequence of operations up to a depth, over a stand-in for the driver',
 'Its tests need a server and do not run here.',
 [HG+'mysql.py',HG+'sql.py'],[('generic SQL with %s placeholders','SQL, MySQL')],[],['all queries'])
p('C01','Configuration selects the backend, and opening is harmless',
 'Creating a hypergraph with each documented backend name gives one with that storage, for the database it names and no other; any name that is not one of a backend is refused with an error. On the command line, each command opens the hypergraph given by its options with the parameters its backend needs; create makes an empty hypergraph if there is none and changes nothing in an existing one.',
 ['configurations','histories'],'every combination of backend, options and command, over new and existing databases',
 'The tests never use the command line or two databases.',
 ['gb/gbrain.py',HG+'hypergraph.py',HG+'sqlite.py'],[('factory','HyperGraph.__init__'),('options','gbrain.cli')],[],['command line','files created'])
p('L01','Parsed tokens mirror the dependency tree',
 'For every parsed text, each sentence is returned in order with one token per word in order, each with the lower-cased word, lemma, shape, part of speech, dependency and entity type of the word. The left and right children of a token are the tokens of the words that depend on it, on each side and in order, their parent is that token, and the same word is always the same token object.',
 ['inputs'],'every dependency tree up to a number of words, in one or more sentences, projective or not',
 'The tests need a language model that is not available, and check only the final strings.',
 ['gb/nlp/parser.py','gb/nlp/nlp_token.py'],[('conversion with memory','Parser.parse_text')],[],['Parser.parse_text'])
p('L02','Token trees linearize back to their words',
 'The list of tokens under a token contains each of its descendants and itself exactly once, with everything on the left before it and everything on the right after it, so for a projective tree it is the words in sentence order. The word list and the chunk text leave out exactly the separators, punctuation and spaces; the root of a sentence is its token with dependency ROOT, or none.',
 ['inputs'],'every token tree up to a size with every assignment of the relevant parts of speech',
 'No test uses them.',
 ['gb/nlp/nlp_token.py','gb/nlp/sentence.py'],[('in-order traversal','Token.to_list, to_word_token_list, chunk_str'),('root','Sentence.root')],[],['to_list','to_word_token_list','chunk_str','Sentence.root','Sentence.__str__'])
p('L03','A drawn sentence shows its whole dependency tree',
 'Drawing a sentence prints one line for each token of its dependency tree, under its parent and deeper than it: first the root, marked with an asterisk, then for each token its left children in order, marked with L, followed by its right children in order, marked with R, each one followed by what is under it. Tokens that only differ in their place are all drawn. Drawing changes nothing and gives the same each time; a sentence without root is drawn as nothing, without failing.',
 ['inputs'],'every dependency tree up to a size, with every assignment of kinds of words, including equal ones, and every list of dependencies',
 'No test draws a sentence.',
 ['gb/nlp/sentence.py','gb/nlp/nlp_token.py'],[('tree of labels','token2label_tree, Sentence.label_tree'),('drawing','Sentence.print_tree')],[],['Sentence.print_tree'])
p('K01','The first stage builds the structure given by the dependencies',
 'In the first stage of extraction every word outside ignored subtrees (punctuation or no dependency) appears exactly once. Complements follow their head, first the ones on its left and then the ones on its right, in order; compounds and prepositional complements join the first element of their head, on their side; and modifiers (auxiliaries, determiners, adverbs, adjectives, conjunctions, possessives, numbers, agents, and prepositions of something with no verb so far) wrap the whole they modify, the first one outermost, with no redundant nesting.',
 ['inputs'],'every dependency tree up to a number of words with every assignment of the kinds of dependency',
 'Eight sentences are tested, and they need a language model that is not available.',
 ['gb/knowledge/stages/alpha.py','gb/knowledge/semantic_tree.py'],[('recursive construction','AlphaStage.process_token'),('layers','Node.nest, apply_layers')],[],['AlphaStage.process_sentence'])
p('K02','The second stage marks exactly the compounds',
 'The second stage keeps the structure and words of the tree as they are, and marks as compound exactly the groups of words that all belong to the same named entity type, and those whose words, at any depth, all have dependencies of object, subject or compound. Every element gets a namespace.',
 ['inputs'],'every tree given by the first stage over every small dependency tree',
 'As for the first stage.',
 ['gb/knowledge/stages/beta.py'],[('criteria','BetaStage.is_compound, is_compound_by_entity_type, is_compound_by_deps')],[],['BetaStage.process'])
p('K03','The third stage drops only articles and joins relationships',
 'The third stage drops no word except the articles (determiners with lemma the, a or an) that determine something else, and repeats none. Groups made only of relational words (verbs, adverbs, adpositions, particles) become compounds, and a relation applied to something that itself starts with a relation is joined to the first relation in it as a compound; everything else is kept, in order.',
 ['inputs'],'every tree given by the second stage over every small dependency tree',
 'As for the first stage.',
 ['gb/knowledge/stages/gamma.py','gb/knowledge/semantic_tree.py'],[('bottom up rewriting','GammaStage.process_entity1, combine_relationships')],[],['GammaStage.process'])
p('K04','The fourth stage keeps all words and changes only relations',
 'The fourth stage loses, repeats and invents no word. Anything that does not start with a relation is left as it is, except that the first element of a group can lose its inner nesting; a relation can only absorb the relations of its direct parameters, whose own parameters then follow in its place in the same order, and the alternative chosen is the first with the best fit.',
 ['inputs'],'every tree given by the third stage over every small dependency tree',
 'As for the first stage.',
 ['gb/knowledge/stages/delta.py','gb/knowledge/semantic_tree.py'],[('candidates and fit','DeltaStage.find_candidates_r, node_fit, process_entity')],[],['DeltaStage.process'])
p('K05','The last stage produces a well formed hyperedge of the tree',
 'For words without white space, slashes or parentheses, the last stage turns each word into a symbol with its text as root and its namespace, each compound into a single symbol with its words joined by _ in order, and each other group into an edge of the results of its elements in order. The result has no edge with less than two elements and no missing value, and it can be written, read back and stored as given.',
 ['inputs'],'every tree given by the previous stages over every small dependency tree',
 'No test looks at this stage.',
 ['gb/knowledge/stages/epsilon.py'],[('recursive construction','EpsilonStage.build_hyperedges')],[],['EpsilonStage.process'])
p('K06','Extraction is total, deterministic and independent of history',
 'For every sentence with a root, extraction gives a result without failing; it does not change the sentence, and gives the same result and stage outputs whatever was extracted before with the same extractor. A text gives one result per sentence in order, the outputs hold the result of each configured stage in order, and an unknown stage is refused.',
 ['inputs','histories','configurations'],'every small dependency tree, every sequence of such sentences and every prefix of the stages',
 'As for the first stage; no test repeats an extraction.',
 ['gb/knowledge/extractor.py','gb/knowledge/stages/'],[('new stages for each sentence','Extractor.read_sentence')],[],['Extractor.read_sentence','Extractor.read_text','Extractor.outputs'])
p('K07','Operations on semantic trees keep every element reachable once',
 'After any sequence of operations on a semantic tree, with each element put in one place only (adding a child, adding to the first child on a side, nesting, cloning, flattening, removing redundant nesting, marking compounds) the leaves under the root are exactly the ones put there, in the order the operations define, and an element found by its identifier is that element. A clone equals the original and shares no node with it: changing one does not change the other.',
 ['histories'],'every sequence of operations up to a depth on small trees',
 'Trees have no tests of their own.',
 ['gb/knowledge/semantic_tree.py'],[('identifier table','Tree.get, set, enclose, disenclose'),('copy','Node.clone')],[('table','identifier to element','Tree.table')],['children of the root'])
p('R01','Reading WordNet stores each of its relations once as a belief',
 'Reading a lexicon stores, with WordNet as the only source, exactly: the part of speech of the first lemma of each synset, a synonym relation from it to each other lemma, each relation of the synset to the first lemma of each related synset, and each relation between lemmas, with the right connector and direction. Each lemma is the same symbol wherever it appears, made of its name and its synset; all is stored when the reader returns, whatever the number of relations.',
 ['inputs','configurations'],'every small lexicon with every kind of relation, and lexicons of every size around the limit of the buffer',
 'The reader has no test.',
 ['gb/readers/wordnet.py',HG+'batch_hypergraph.py'],[('traversal of synsets','read, process_synset'),('buffer','BatchHyperGraph')],[],['all queries after reading'])
p('W01','The dump filter keeps exactly the pages of the main namespace',
 'For every dump in which each page has its tags and title in lines of their own, the output is the input without the pages whose title has a colon, from the line that opens them to the one that closes them, and with every other line unchanged and in order.',
 ['inputs'],'every sequence of pages and other lines up to a length, with any lines before and after the title and any titles',
 'The script has no test.',
 ['python/filter_wikidump.py'],[('state machine','main')],[('state','searching for a page, its title or its end','main')],['standard output'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for q in P:
        assert len(q['title'])<=80,q['title']
        f.write(json.dumps(q,ensure_ascii=False)+'\n')
print(len(P))
