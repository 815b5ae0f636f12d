import json
S='src/kiutils/'
ALL=[S+f for f in ('board.py','schematic.py','footprint.py','symbol.py','wks.py','dru.py','libraries.py')]
ITEMS=[S+'items/'+f for f in ('common.py','brditems.py','fpitems.py','gritems.py','schitems.py','syitems.py','zones.py','dimensions.py')]
P=[]
def p(id,title,stmt,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

p('C01','The reader returns exactly the tokens of a text',
 'Reading a text returns its tokens with the nesting, order and kind they have in the text: quoted text as the exact text between the quotes with \\" read as a quote, numbers (integers, decimals and exponents as KiCad and Python write them, negative or not) as numbers of the same value, every other word as text, whatever white space separates them and however deep or long they are. A text whose parentheses do not balance, or with a quote that is never closed, is refused with an error.',
 ['inputs'],'all texts of the token format','a test reads a few well-formed files; wrong splitting shows only for particular neighbours of quotes, parentheses, digits and white space',
 [S+'utils/sexpr.py'],[('token grammar','utils/sexpr.py: term_regex'),('nesting stack','utils/sexpr.py: parse_sexp')])
p('C02','Any text survives in any text field',
 'Whatever text is put into any free text field of any element (quotes, parentheses, line breaks, words or numbers that look like tokens, keywords, empty text, non-ASCII characters), saving writes it as one quoted text and loading gives the identical text back, with every other field unchanged. Texts may contain backslashes as complete escape pairs.',
 ['inputs'],'every text field of every element, every text','the test files hold harmless texts in most fields; one field that forgets to escape or quote corrupts only files with that field and a special character',
 [S+'utils/strings.py',S+'utils/sexpr.py']+ALL+ITEMS,[('escaping','utils/strings.py: dequote'),('quoting at each field','every to_sexpr'),('unquoting','utils/sexpr.py: parse_sexp')])
p('C03','Any number survives in any numeric field',
 'Whatever finite number is put into any numeric field of any element, including zero, negative, very small, very large and many-digit values, saving and loading gives a number of the same value back in the same field and leaves every other field unchanged. (Plot settings and sheet fill alpha are written with a fixed number of decimals; there it holds for values with at most that many.)',
 ['inputs'],'every numeric field of every element, every number','tests use a few coordinates; rounding, truncation, an optional zero dropped as if absent, or exponent spelling show only for particular values in particular fields',
 [S+'utils/sexpr.py']+ALL+ITEMS,[('number output','every to_sexpr'),('number grammar','utils/sexpr.py: parse_sexp'),('optional numbers tested against None','every from_sexpr/to_sexpr')])
def fid(id,what,kindtext,files,mech):
    p(id,f'Content of {what} survives saving and loading',
     f'For any combination of present and absent optional parts, flags, values and list contents, saving {kindtext} writes exactly the tokens of the KiCad format that describe its content, in the format\'s nesting and quoting, nothing missing, invented, duplicated or reordered. Loading such a text gives an object with exactly that content, and saving and loading repeatedly never loses or alters any of it.',
     ['inputs','configurations'],'all object contents: every element kind, every subset of optional parts, every list content',
     'the format has hundreds of optional parts whose presence interacts; test files sample a few combinations and most optional parts appear in none of them',files,mech)
fid('C04','boards','a board with all it can hold (settings, stackup, layers, nets, footprints, graphics, texts, dimensions, tracks, vias, arcs, zones, groups, targets, images)',[S+'board.py']+[ITEMS[i] for i in (0,1,3,6,7)],[('board reader/writer','board.py: Board.from_sexpr/to_sexpr'),('board items','items/brditems.py, items/gritems.py, items/zones.py, items/dimensions.py')])
fid('C05','schematics','a schematic with all it can hold (symbols and their library copies, wires, buses, junctions, labels, texts, graphics, images, sheets, pins, instances)',[S+'schematic.py',S+'symbol.py',ITEMS[4],ITEMS[5],ITEMS[0]],[('schematic reader/writer','schematic.py: Schematic.from_sexpr/to_sexpr'),('schematic items','items/schitems.py')])
fid('C06','footprints','a footprint with all it can hold (attributes, properties, pads with custom shapes, graphics, texts, zones, groups, 3D models)',[S+'footprint.py',ITEMS[2],ITEMS[6],ITEMS[0]],[('footprint and pad reader/writer','footprint.py: Footprint, Pad, Model, Attributes, DrillDefinition, PadOptions'),('footprint items','items/fpitems.py')])
fid('C07','symbol libraries','a symbol library with all it can hold (symbols, units, pins with alternates, properties, graphics)',[S+'symbol.py',ITEMS[5],ITEMS[0]],[('symbol reader/writer','symbol.py: SymbolLib, Symbol, SymbolPin'),('symbol graphics','items/syitems.py')])
fid('C08','worksheets','a drawing sheet with all it can hold (setup, lines, rectangles, texts, bitmaps and their repeat and option fields)',[S+'wks.py'],[('worksheet reader/writer','wks.py: WorkSheet and its items')])
fid('C09','design rules','a set of custom design rules with all it can hold (rules, constraints, layers, conditions)',[S+'dru.py'],[('rules reader/writer','dru.py: DesignRules, Rule, Constraint')])
fid('C10','library tables','a symbol or footprint library table with all it can hold',[S+'libraries.py'],[('table reader/writer','libraries.py: LibTable, Library')])
p('C11','Loading does not depend on the order of tokens',
 'Within any element, the order in which its child tokens and flag words appear does not change what is loaded; only leading positional values and the relative order of members of the same list are significant.',
 ['inputs'],'every element, every admissible order of its children','KiCad versions and other tools order tokens differently; tests see one order per element',
 ALL+ITEMS,[('keyword dispatch loops','every from_sexpr')])
p('C12','Saving and loading are pure and repeatable',
 'Saving never changes the object, loading never changes the parsed input, and repeating either gives the identical text or an equal object, independent of what was saved or loaded before, of hash seed, locale, time zone and working directory. What is saved after loading a saved text is the identical text again.',
 ['histories','configurations'],'all objects, all sequences of saves and loads','a test saves each object once in one process; in-place normalisation, caching or order dependence shows only on repetition',
 ALL+ITEMS,[('serialisation','every to_sexpr'),('parsing','every from_sexpr')])
p('C13','Library identifiers split and join consistently',
 'Setting the identifier of a symbol, schematic symbol or footprint and reading it back returns the same identifier; "nickname:name" splits at the first colon, and for symbols without a nickname "name_unit_style" (plain decimal numbers) splits into name, unit and style. Changing parts changes the identifier accordingly, renaming a symbol renames its units and keeps their numbers, and saving and reloading preserves all of it, after any sequence of changes.',
 ['inputs','histories'],'all identifiers, all sequences of identifier changes','identifiers with several underscores, digits or colons are ambiguous in many ways; tests try a handful',
 [S+'symbol.py',S+'footprint.py',S+'items/schitems.py'],[('identifier properties','symbol.py: Symbol.libId; footprint.py: Footprint.libId; items/schitems.py: SchematicSymbol.libId')])
p('C14','Objects share no state',
 'Objects created independently or loaded independently, and different parts of one loaded object, never share mutable state with each other or with the parsed input: changing one in place is never visible in another, in later loads or in newly created objects.',
 ['histories'],'all classes, all pairs of creations and loads, all in-place changes','sharing through default values or parsed lists is invisible until a second object is changed in place, which tests do not do',
 ALL+ITEMS,[('field defaults','every dataclass: default_factory'),('parsed lists copied into objects','every from_sexpr')])
p('C15','Files are read and written where and how the caller says',
 'Loading a file remembers its path; saving without a path writes to the remembered one, saving with a path writes there and leaves the remembered one as it is; the requested encoding is used for reading and writing. Loading from a path that is not a file and saving without any path are errors. No other file is ever touched, after any sequence of loads, edits and saves, for all seven file types.',
 ['histories','configurations'],'all sequences of load, save, edit and path changes, all encodings','tests save each file once to one explicit path with one encoding',
 ALL,[('file access','from_file/to_file of the seven file classes')])
p('C16','A failed save destroys nothing and is reported',
 'If an object cannot be written - because some part of it cannot be converted or is in a state documented as not writable (a zone without layers, a user page without size, a dimension without points, a text box without corners, a worksheet polygon), a character does not exist in the encoding, the encoding is unknown or the target cannot be opened - the save raises an error, the existing file keeps its content, no new file appears and the object is unchanged; a save whose write is cut short by the system raises an error as well.',
 ['fault_sequences','crash_points'],'a failure at every part of the object, every text, every byte of the write','tests never make a save fail',
 ALL,[('content generated before the file is opened','to_file of the seven file classes')])
p('C17','Damaged or foreign input is refused',
 'A file cut off at any point before its last closing parenthesis, with a missing or surplus parenthesis, of another file type, or not decodable, is refused with an error rather than loaded as something smaller; every element refuses a token of another kind, and tokens documented as refused (too few or too many values, dimensions in footprints, worksheet polygons) are refused. (A rules file cut between two rules is a shorter rules file.)',
 ['inputs','crash_points'],'every cut point and every parenthesis of files of every type, every pair of token kind and element','tests load only intact files of the right type',
 [S+'utils/sexpr.py']+ALL+ITEMS,[('balance check','utils/sexpr.py: parse_sexp'),('type check','every from_sexpr')])
p('C18','Layout parameters change only the layout',
 'Saving an element with any indentation and with or without a trailing newline gives the same tokens; the first line starts with the requested indentation and the trailing newline option adds exactly one line break at the end.',
 ['inputs','configurations'],'every element, every indentation and newline setting','tests save with default layout only',
 ALL+ITEMS,[('indent/newline parameters','every to_sexpr')])
p('C19','Newly created objects are complete and alike',
 'A newly created board, schematic, worksheet, rule set, library table, symbol or footprint has the documented initial content, carries the given arguments (by name or by position) verbatim, is the same every time whatever was done to earlier ones, and can be saved and loaded without change; unsupported footprint types are refused. Default-constructed elements save and reload as themselves.',
 ['inputs','histories'],'all arguments, all sequences of creating, filling and reloading','tests create one object of a kind and compare one file',
 ALL+ITEMS,[('constructors','create_new of the file classes, Symbol and Footprint')])
p('C20','Unknown tokens do not disturb the known ones',
 'A token an element does not know, alone or among others, wherever it appears among the children of that element and whatever it contains, does not stop the file from loading and does not change anything else that is loaded.',
 ['inputs'],'every element, every position, several shapes of unknown tokens','newer KiCad versions add tokens anywhere; test files contain only known ones',
 ALL+ITEMS,[('keyword dispatch loops','every from_sexpr')])
p('C21','An edit changes that thing in the file and nothing else',
 'After loading any file, changing any one or two attributes, or removing, duplicating or reordering list members, and saving, the saved file is the loaded file with exactly these changes, and loading it shows exactly the edited content.',
 ['histories','inputs'],'real files and generated ones, every attribute of every class in them, single edits and pairs','tests edit one or two attributes in a few files',
 ALL+ITEMS,[('object model as the only source of the saved text','every to_sexpr/from_sexpr')])
p('C22','Equality and copies follow content',
 'Two objects of one kind compare equal exactly when all their content is equal, in both directions; a deep copy is equal to its original and independent of it.',
 ['inputs'],'all classes, all single attribute differences','tests do not compare objects',
 ALL+ITEMS,[('dataclass equality','every dataclass')])
p('C23','A missing token means its default and nothing else',
 'When a token is missing from an element in a file, what it describes loads as the documented default (an absent option, an empty list, or the value a new object has) and everything else in the element loads as if nothing were missing; new objects have the documented defaults.',
 ['inputs'],'every element, each token, each pair of tokens, and all but one missing','test files contain complete elements; defaults of absent tokens are hardly ever looked at',
 ALL+ITEMS,[('field defaults','every dataclass'),('keyword dispatch loops','every from_sexpr')])
p('C24','Work on different documents does not interfere',
 'Reading, loading, saving or creating one document or element while another one is being read, loaded, saved or created by another thread, whatever way the two are interleaved, gives for each exactly the result it gives alone.',
 ['schedules'],'all pairs of operations on different objects, every point at which one thread may be interrupted by the other','tests run in one thread, one operation after the other; scratch state kept outside the running call goes unnoticed',
 [S+'utils/sexpr.py',S+'utils/strings.py']+ALL+ITEMS,[('no state outside the running call','parse_sexp, every from_sexpr, to_sexpr, create_new')])
p('C25','Parts move between documents unchanged',
 'A part loaded or created on its own (a footprint, symbol, pad, zone, graphic, text, pin, sheet, rule and so on) and put at any place of a list or attribute of another document is saved and loaded there exactly as it was, with the rest of that document unchanged; taking it out again restores the document, and the part itself is changed by none of this, also when it is in two documents at once.',
 ['histories','inputs'],'every container, every place in it, every part and its contents; real parts into real documents','tests load and save whole files; they do not put parts of one into another',
 ALL+ITEMS,[('containers delegate to the parts they hold','every to_sexpr/from_sexpr')])
P.sort(key=lambda x:x['id'])
for x in P:
    assert len(x['title'])<=80,x['title']
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))

T={'C01':'exhaustive enumeration of token texts against a reference scanner','C02':'explicit-state model checking of the real reader/writer: every text place x enumerated texts','C03':'explicit-state model checking of the real reader/writer: every number place x enumerated numbers',
'C11':'exhaustive permutation exploration of token trees on the real loader','C12':'bounded exploration of save/load histories and configurations','C13':'bounded exploration of operation histories against a state model','C14':'bounded exploration of creation/load/change histories with sharing monitor',
'C15':'bounded exploration of file operation histories against a state model','C16':'exhaustive fault-point enumeration on the real save','C17':'exhaustive enumeration of cut and damage points on the real loader','C18':'exhaustive enumeration of layout parameters over model states',
'C19':'bounded exploration of creation histories against the model','C20':'exhaustive insertion of unknown tokens at every position','C21':'bounded exploration of edit histories on real files against the model','C22':'exhaustive comparison of model state pairs','C23':'exhaustive removal of tokens against the model','C24':'stateless exploration of thread interleavings of the real code under a controlled scheduler, bounded preemptions','C25':'bounded exploration of insert/save/remove histories against the model'}
checks=[]
for x in P:
    i=x['id']
    checks.append(dict(property=i,quick_cmd=f'python3 mc/run.py {i} --tier quick',thorough_cmd=f'python3 mc/run.py {i} --tier thorough',
      technique=T.get(i,'explicit-state model checking: reference model of the format, every bounded object state driven through the real save and load'),
      level='model_checking',level_note='exhaustive within the bounds reported in the evidence file and DESIGN.md; every state is executed on the real code',evidence_file=f'evidence/{i}.json'))
json.dump(dict(version=1,setup_cmd='python3 mc/selftest.py',checks=checks,not_applicable=[],notes='Pure Python; checks import the code from /repo/src directly. No hooks in /repo.'),open('/verif/MANIFEST.json','w'),indent=1)
