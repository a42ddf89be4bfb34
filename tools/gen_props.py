import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
RD='src/po/reader.rs';EX='src/po/message_extractor.rs';DE='src/po/decoder.rs';LI='src/po/line_iter.rs';PA='src/po/parser.rs';UN='src/po/unescape.rs';FO='src/plural/forms.rs';PL='src/plural/plural.rs';FM='src/plural/formula/mod.rs';LA='src/plural/formula/formula.lalrpop';NO='src/plural/formula/node.rs';ER='src/error.rs';ME='src/enums/message.rs';UT='src/unit.rs'
p('C01','Every entry becomes exactly one unit, in order, with its own ids and texts',
 'Reading a well-formed catalogue to its end delivers exactly one unit per entry after the header entry, in the order of the file, and then the end without an error. Each unit carries the context (present or absent), the singular and plural ids and the translation(s) of its own entry: nothing is dropped, duplicated, merged, reordered or taken from a neighbour. This holds for every number of entries, with or without a header, with or without blank lines between entries, and for every combination of optional fields, entry kinds (simple, plural, obsolete, fuzzy, with previous data) and comments, including repeated ids.',
 ['inputs'],'all well-formed catalogues',
 'The tests read a handful of fixed catalogues of a few entries; dropped, merged or shifted entries show only for particular neighbours, counts and field combinations.',
 [RD,EX,DE],[('one unit of look-ahead','PoReader::next'),('fields in fixed order','MessageExtractor'),('continuation lines','Decoder::parse_msg')],['PoReader::next','Unit accessors'])
p('C02','String values are decoded exactly',
 'The value reported for a string field (context, ids, translations, previous fields, header text) is the concatenation, in order, of the quoted texts of its first line and its continuation lines, in which \\n, \\t, \\r, \\" and \\\\ are decoded exactly once from left to right. Every other character, including unknown backslash sequences, any Unicode character and text of any length, is kept as it stands. No text is trimmed, normalised, truncated or shared between fields.',
 ['inputs'],'all strings over all Unicode characters and escape sequences, cut into lines in any way',
 'The tests decode a few short strings; the space of escape sequences, adjacency, multi-byte text, line splits and lengths is unbounded.',
 [UN,PA,DE],[('escape decoding','Unescaper::unescape'),('quoted text of a line','message_re in PoParser'),('concatenation','Decoder::parse_msg')],['Message','Unit::context','Unit::prev_*'])
p('C03','Comments reach the right unit, complete, classified and in order',
 'The comment lines in front of an entry are reported on the unit of that entry and on no other: translator comments (`#` alone or followed by white space) and extracted comments (`#.`) as notes with their origin in order, references (`#:`) as white-space separated locations in order, `#,` as the set of trimmed, non-empty, comma-separated flags, and every other kind as a custom comment with its character, in order. The text of a comment is kept verbatim after the white space that follows its marker and is never read as message text, even when it looks like a field or contains quotes. Comments never change ids, texts or contexts.',
 ['inputs'],'all sequences of comment lines in front of all kinds of entries',
 'Only a few comment layouts are tested; look-alikes, repeated lines, separators and Unicode are not.',
 [RD,PA],[('collection of comments','PoReader::parse_comments'),('classification','comment_re and message_re in PoParser')],['Unit::notes','Unit::comments','Unit::locations','Unit::flags'])
p('C04','The translation state reflects fuzziness and completeness',
 'A unit is NeedsWork exactly if its entry carries the flag fuzzy (as a whole flag, anywhere in its flags), whether translated or not. Otherwise it is Empty exactly if the translation (or every plural variant) is empty, and Final as soon as any is non-empty. A unit counts as translated exactly if it is Final, and state never leaks between entries.',
 ['inputs'],'all entries: flags, texts, plural variants, neighbours',
 'The tests check single examples of each state.',
 [RD,UT,ME],[('fuzzy flag','PoReader::parse_comments'),('blankness','Message::is_blank'),('final state','PoReader::read_unit')],['Unit::state','Unit::is_translated'])
p('C05','Obsolete entries are recognised, and only those',
 'A unit is obsolete exactly if its entry is written with the `#~` prefix, and then its fields, continuation lines and previous data (`#~|`) are read like those of any entry. Obsolete and live entries never share lines: a field or continuation line of one kind is not absorbed by an entry of the other, and comments in front do not matter.',
 ['inputs'],'all mixtures of obsolete and live entries',
 'The tests read one or two obsolete entries in fixed places.',
 [RD,DE,PA],[('obsolete detection','PoReader::read_line'),('prefix comparison','Decoder::parse_msg')],['Unit::is_obsolete'])
p('C06','Previous-message data is reported separately and completely',
 'The `#|` (or `#~|`) context, id and plural id of an entry are reported as previous context and previous message, decoded like any string, and never appear in, replace or alter the current message or its context. A unit whose entry has no previous field reports no previous context and an empty previous message; nothing is inherited from another entry.',
 ['inputs'],'all entries with any subset of previous fields',
 'Tests cover one or two fixed combinations.',
 [EX,DE,PA],[('previous fields','MessageExtractor'),('prefix |','PoParser::parse_line')],['Unit::prev_context','Unit::prev_message'])
p('C07','Header metadata is exact and never delivered as a unit',
 'An entry with an empty id in first place is the header: it is not delivered as a unit, and its text is exposed as properties, one per line containing a colon, split at the first colon and trimmed on both sides, with repeated keys joined by one space in order and all other lines ignored. The notes and custom comments in front of it are the header notes and comments. Without such an entry all metadata is empty and the first entry is an ordinary unit; the metadata does not change while units are read.',
 ['inputs'],'all header texts and all first entries',
 'A handful of header texts is tested.',
 [RD],[('header parsing','PoReader::parse_po_header'),('header detection','PoReader::new')],['CatalogueReader::header_properties','CatalogueReader::header_notes','CatalogueReader::header_comments'])
p('C08','The target language is the canonical tag of the Language property',
 'The target language is the Language property of the header read as an RFC 4647 range in canonical case, otherwise as a POSIX locale name mapped to its language tag (script and variant modifiers included). Whenever the property is absent, empty, not ASCII or neither of the two, it is the invariant (empty) language, and reading goes on: no value makes reading fail or panic.',
 ['inputs'],'all values of the Language property',
 'Tests use two or three valid tags.',
 [RD],[('language lookup with fall-back','PoReader::parse_po_header')],['CatalogueReader::target_language'])
p('C09','Plural formulas mean what they mean in C',
 'For every formula over n with decimal integers, parentheses, ?:, || (or), && (and), ==, !=, <, <=, >, >=, +, -, *, /, %, ! and unary minus, the selected index for a count is the value C gives the expression (precedence, associativity, 0/1 truth values, truncating division), provided it lies in 0..nplurals and no intermediate value overflows 64 bits. Extra parentheses and white space never change it. (Recorded findings: `!` in front of an operand of a tighter binary operator, and counts above the signed 64-bit range.)',
 ['inputs','programs'],'all formulas and all counts',
 'Formulas are programs: the tests evaluate a few of them for a few counts.',
 [LA,NO,FM],[('grammar','formula.lalrpop'),('evaluation','Node::execute')],['PluralForms::get_value','Plural::get'])
p('C10','Plural evaluation is total: never a panic, always bounded',
 'Selecting a plural form for any count with any accepted formula ends without a panic, overflow trap, stack exhaustion or unbounded time or memory, also for division or modulo by zero, values beyond 64 bits, negative results and deeply nested formulas. Arithmetic wraps around at 64 bits, a division by zero saturates to the end of the range on the side of the dividend, and a remainder by zero is the dividend; a formula whose value is then negative or not below nplurals selects no form at all. Evaluation is pure: the same count always gives the same answer, and a copy of the forms answers the same.',
 ['inputs','programs'],'all accepted formulas and all counts of the machine type',
 'Overflow and nesting corners are astronomically many; the tests touch two.',
 [NO,FM,FO],[('checked arithmetic','Node::execute'),('range filter','PluralForms::get_value'),('length limit','Formula::parse')],['PluralForms::get_value','Plural::get','Message::get_plural_text'])
p('C11','A count selects its own variant or none, never a neighbour',
 'Variant i of a plural message is the text of `msgstr[i]`, and the text selected for a count is the variant at exactly the index the formula gives; if that index is not below nplurals or the variant was not supplied, nothing is selected. Variants that are missing, empty, out of order or beyond nplurals never shift, replace or duplicate another one: at most nplurals of them (2 without a declaration) are read, consecutively from 0. Without a declaration no count selects a variant.',
 ['inputs'],'all plural entries: declared and supplied counts, gaps, order; all counts',
 'Tests use complete sets of variants only.',
 [EX,PL,FO],[('reading of variants','MessageExtractor'),('selection','Plural::get')],['Plural::values','Plural::get','Message::get_plural_text'])
p('C12','Plural-Forms declarations are accepted or refused whole, and exposed verbatim',
 'A non-empty Plural-Forms property is accepted exactly if it is a list of `key = value;` pairs whose nplurals (2 if absent) is an unsigned decimal number and whose plural formula, if not empty, is well-formed and at most 4096 bytes long; white space, unknown keys, order and stray semicolons do not matter. Every plural message then exposes the count, the definition and the formula as written. Otherwise parse itself fails with an error that says so, and no unit is delivered.',
 ['inputs'],'all declarations',
 'A few good and bad declarations are tested.',
 [FO,PA,FM,RD],[('pairs','PoParser::parse_map'),('declaration','PluralForms::parse')],['PoParser::parse','Plural::get_forms'])
p('C13','No input panics, hangs or exhausts the process',
 'For every byte sequence, opening it, reading it to the end and calling every accessor and formatter on what comes out ends normally: with units, an error or the end. There is no panic, arithmetic trap, abort, stack overflow (with a default-sized thread stack) or endless loop, and time and memory stay proportionate to the input. Never more units are delivered than the input can hold.',
 ['inputs'],'all byte sequences',
 'Tests feed text written by their author; hostile bytes, sizes and nesting are unbounded.',
 [PA,LI,RD,FM,NO],[('errors instead of panics','everywhere'),('linear-time regular expressions','PoParser')],['PoParser::parse','PoReader::next','all accessors'])
p('C14','Reading is fail-stop',
 'The sequence of results is units, then at most one error, then the end for ever: after an error or the end, next always gives nothing, whatever the rest of the input holds and however often it is asked. The units delivered before the error are exactly those of the entries completely read before it. An error in the header makes parse itself fail.',
 ['inputs','fault_sequences'],'all inputs, all kinds and places of errors, all numbers of further calls',
 'Tests call next once or twice after one particular error.',
 [RD,LI],[('fused error','PoReader::next'),('closed source','LineIter::next')],['PoReader::next'])
p('C15','Malformed structure is reported, not guessed around',
 'An entry without msgid or without translation, fields out of order or repeated, a stray continuation line, variants without plural id, a plural without its first variant, an empty id outside the header, comments within an entry, previous data after the current, fields of mixed kind (live and obsolete) and unreadable lines all end the reading with an error; nothing of such an entry is delivered as a unit. Well-formed input is never rejected. (Recorded finding: an entry cut off by the end of the input is dropped silently.)',
 ['inputs'],'all sequences of lines',
 'The tests contain a few malformed snippets; the sequences of lines are unbounded.',
 [EX,DE,RD],[('expectations','Decoder::expected'),('field order','MessageExtractor'),('empty ids','PoReader::read_unit')],['PoParser::parse','PoReader::next'])
p('C16','Errors name the right line and text',
 'A syntax error carries the 1-based number of the line where the unexpected text stands, what was found there and what was expected; an empty id is reported at the first field of its entry. Blank lines, comments, line-end style, continuation lines and the number of lines before it do not disturb the count. (Recorded finding: an unreadable line is reported one line too far.)',
 ['inputs'],'all malformed inputs, any position, any layout',
 'Tests check line numbers of a few small inputs.',
 [LI,DE,EX,ER],[('line counter','LineIter'),('expected/got','Decoder::expected')],['Error::Parse','Error::Unexpected'])
p('C17','A failing source is reported as such, with its cause and place',
 'If the source fails at any byte, or holds invalid UTF-8, the units of the entries completely read before are delivered, then exactly one i/o error with the number of the line being read and the original failure (kind, and payload or code of the operating system), then the end. The failure is never swallowed, retried, turned into an end of file or a syntax error, and no unit is made from a broken line. Interrupted reads are not failures.',
 ['fault_sequences','crash_points','inputs'],'every offset, kind of failure and catalogue',
 'One failing reader is tested, at one place.',
 [LI,RD,DE],[('propagation','LineIter::next'),('errors through look-ahead','PoReader::read_line')],['Error::Io','PoReader::next'])
p('C18','How the source delivers its bytes does not matter',
 'What is read depends only on the bytes of the source, never on how they arrive: in one read or many, one byte at a time, cut within characters, escapes, line ends or fields, or across internal buffer boundaries. Units, header, errors and line numbers are the same for every chunking.',
 ['schedules','inputs'],'all inputs and all ways to cut them into reads',
 'Tests read from byte slices, in one piece.',
 [LI],[('buffered lines','LineIter')],['PoParser::parse','PoReader::next'])
p('C19','Layout does not change meaning',
 'Blank lines anywhere (also within an entry), indentation, white space around fields and at line ends, LF or CRLF line ends, a missing final newline, the way a string is cut into continuation lines and spelled with escapes never change the units or the header. Only line numbers in errors may differ.',
 ['inputs'],'all pairs of layouts of all catalogues',
 'Tests use one layout.',
 [PA,LI,DE],[('line syntax','message_re, comment_re'),('blank lines','LineIter::next')],['PoReader::next','CatalogueReader'])
p('C20','Reading is incremental',
 'A unit is delivered as soon as the source has supplied its entry and the next one (plus a bounded buffer); opening a catalogue needs no more than its header and one further entry. The reader never requires the end of the source: it works on endless sources and takes only what the requested units need.',
 ['inputs','schedules'],'all sources, of any length, and all numbers of units asked for',
 'Tests read short complete inputs.',
 [RD,LI],[('look-ahead of one unit','PoReader'),('buffered lines','LineIter')],['Read::read calls of the source','PoReader::next'])
p('C21','Readers are independent of each other',
 'What a reader delivers does not depend on what its parser read before, on other readers of the same parser that advance in any interleaving, are abandoned or fail, nor on other threads reading with the same parser at the same time. Units stay what they were while others are read.',
 ['schedules','histories'],'all histories of a parser, all interleavings of readers, all thread schedules',
 'Each test uses one parser for one reader.',
 [PA,RD],[('immutable parser','PoParser'),('state in the reader','PoReader')],['PoParser::parse','PoReader::next'])
p('C22','Resources grow linearly, and none are kept',
 'Time, allocations and peak memory grow at most linearly with the input in every dimension (entries, lengths, lines, comments, flags, locations, variants, properties). While units are read and dropped one by one, the memory held by the reader does not grow with the number of entries, and nothing stays allocated once reader, units and parser are dropped, however the reading ended.',
 ['inputs','histories'],'all sizes in all dimensions, all ways to end a reading',
 'Tests use inputs of a few hundred bytes and measure nothing.',
 [RD,DE,PA,UN,EX],[('streaming','PoReader::next'),('linear-time regular expressions','PoParser'),('shared plural forms','Rc<PluralForms>')],['allocator','CPU clock'])
p('C23','Accessors agree, and units are values',
 'All views of a unit and its messages agree with each other (kind, ids, first text, text for a count, blankness, state), for all units. Units, messages, notes and comments are values: they outlive reader, parser and input, clones are the same, repeated looks give the same, and equality of messages is exact: two simple messages are equal if and only if their ids and their texts are the same (no text being the same as an empty text), two plural ones if and only if their singular and plural ids are the same, a simple and a plural one never; notes and comments are equal if and only if origin or kind and text are the same.',
 ['inputs','histories'],'all units, all pairs and triples of messages',
 'Tests compare hand-made values one by one.',
 [UT,ME,PL,'src/note.rs','src/comment.rs'],[('accessors','Unit, Message, Plural'),('equality','Message::eq')],['Unit','Message','Plural','Note','Comment'])
p('C24','An entry means the same wherever it stands',
 'The unit of an entry depends only on the lines of the entry and on the header: concatenating, permuting, removing, repeating or appending entries gives exactly the concatenation, permutation and so on of the units. Whatever follows an entry, well-formed or not, does not change the units before it.',
 ['inputs','histories'],'all catalogues and all rearrangements of their entries',
 'Tests read each entry in one place.',
 [RD,EX,DE],[('fresh unit per entry','PoReader::read_unit'),('look-ahead','PoReader::next')],['PoReader::next'])
p('C25','Errors can be shown, traced and converted without loss',
 'Every error renders as one message with its line (if it has one), what was expected and found, or the text of its cause; the parts that are empty are left out. Its source is the i/o error it wraps and nothing otherwise, and conversion to std::io::Error keeps the error itself retrievable with the same text. A writer that fails during rendering is reported.',
 ['inputs'],'all errors, all texts and lines, all writers',
 'Tests render one error of each kind.',
 [ER],[('rendering','Display and Debug of Error'),('cause','Error::source'),('conversion','From<Error> for io::Error')],['Display','std::error::Error::source','io::Error'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
tech={
'C01':'runtime oracle: observed units of the real reader against the generating catalogue and an independent reference reader',
'C02':'runtime oracle: decoded strings against the abstract string and a reference decoder; exhaustive short escape words',
'C03':'runtime oracle: observed notes, locations, flags, comments against the generating catalogue and reference reader',
'C04':'runtime oracle: observed state against reference; exhaustive flag/text combinations',
'C05':'runtime oracle: exhaustive line sequences and random mixtures against the reference reader',
'C06':'runtime oracle: exhaustive subsets of fields and random catalogues against the reference reader',
'C07':'runtime oracle: observed header metadata against reference; metadata re-observed while reading',
'C08':'runtime oracle: observed target language against an independent model; exhaustive short values',
'C09':'differential runtime monitor: real evaluator against an independent C parser and evaluator',
'C10':'runtime traps (overflow checks, panics, signals, CPU and allocation watchdogs) plus 128-bit reference evaluation',
'C11':'runtime oracle: selected variants against reference over gaps, orders and counts',
'C12':'runtime oracle: acceptance and exposure of declarations against two independent grammars',
'C13':'robustness monitors: panic, signal, stack, CPU, allocation and runaway detection under hostile input',
'C14':'online trace monitor (unit* error? end*) under damaged inputs and failing sources',
'C15':'runtime oracle: exhaustive line sequences and structural damage against the reference reader',
'C16':'runtime oracle: reported line/got/expected against the known place of the damage',
'C17':'fault injection at every byte offset with a trace monitor and cause tracking',
'C18':'differential runtime monitor over injected read chunkings (all single cuts and pairs of cuts, random, buffer ends)',
'C19':'metamorphic runtime monitor: pairs of layouts of one catalogue',
'C20':'metered and endless sources: online monitor of bytes taken per unit delivered',
'C21':'schedule monitor: interleavings and threads with injected delays against solo runs; ThreadSanitizer in the thorough tier',
'C22':'counting allocator and CPU clocks: online resource monitors and leak accounting',
'C23':'online consistency assertions over observed units; equality laws on all pairs',
'C24':'metamorphic runtime monitor: rearranged catalogues against entries read alone',
'C25':'runtime assertions on rendering, cause and conversion of constructed and observed errors',
}
note={
'C09':'Exploration over formulas and counts, exhaustive for all small expression trees; trusts the independent C evaluator of the harness. Two recorded findings are probed by exact key.',
'C17':'Every offset of many random catalogues, 12 kinds of failure; the source after a failure stays readable, so that retries are seen. Trusts the reference for which lines were complete.',
'C15':'All sequences of up to 5 lines over three alphabets plus random damage; an entry cut off by the end of input is a recorded finding and only probed.',
'C22':'Bounds are several times what linear behaviour needs; allocation measures are deterministic, CPU ratios must fail four times.',
'C21':'Schedules are explored, not enumerated, except for three readers with three steps each; delays are injected at every read.',
}
chk=[]
for x in P:
    i=x['id']
    chk.append(dict(property=i,quick_cmd=f'bash run.sh check {i}',thorough_cmd=f'bash run.sh check {i} thorough',technique=tech[i],level='fault_enumeration' if i=='C17' else 'exploration',
      level_note=note.get(i,'Bounded exploration of the real code with an exact oracle on every execution (exhaustive over the small spaces named in the evidence, random beyond); trusts the reference model of the harness and the generators\' reach.')))
m=dict(version=1,setup_cmd='bash run.sh build',checks=chk,not_applicable=[],notes='No hooks: everything is observed through the public API, the allocator, the clocks and the process. known_findings.txt lists recorded and repaired defects.')
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
