"""Writes /verif/properties.jsonl.  Run by hand after editing the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(qtext.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe, hook_needed=None)))

p('C01', 'Opening and saving a file preserves the whole document', '''
Opening any well-formed Synfig animation file without a document type definition of its own (plain .sif or gzipped .sifz, whatever
layers, values, comments, metadata or unknown elements it holds, and whatever legal characters its text
and attributes contain) and saving it without editing, under the same or another name and in either
format, gives a file that parses to the same document: same elements in the same order, same attributes, same
text; only blank layout between elements may differ. Opening and saving again any number of times changes nothing further.''',
  ['inputs', 'configurations'], 'every well-formed document, every chain of .sif/.sifz saves, every process locale',
  'Tests load and re-save a handful of fixture files, all plain ASCII, and compare two of them; text with spaces only, newlines in attributes, non-ASCII text under a C locale or unknown elements never occur.',
  ['sangfroid/format.py', 'sangfroid/animation.py'],
  [('parsing the file as XML', 'sangfroid/format.py FileContextHandler, Sif.main_file, Sifz.main_file'),
   ('writing the document out', 'sangfroid/format.py Format._write_to_file, Sif.save, Sifz.save')],
  ['bytes on disk before and after, parsed by an independent XML parser'])

p('C02', 'Edits survive saving and reopening', '''
After any sequence of edits made through the API to an animation (parameters of every kind, animated values
and their waypoints, layer attributes, added or moved layers, animation-wide settings), saving it as .sif or .sifz and reopening it
gives an animation in which every layer, parameter, timeline and setting reads exactly as it did just before
saving. Saving does not itself change anything that can be read from the animation in memory.''',
  ['histories', 'inputs'], 'every edit sequence, on every starting document, saved in each format at any point',
  'Tests make one edit each and usually inspect the in-memory tree only; two fixtures are re-saved.',
  ['sangfroid/animation.py', 'sangfroid/format.py', 'sangfroid/value/value.py', 'sangfroid/field.py'],
  [('values live in the XML tree itself', 'sangfroid/value/value.py Value._tag'),
   ('serialising the tree', 'sangfroid/format.py')],
  ['public reads of a live animation vs public reads of the re-opened file'])

p('C03', 'A failed or interrupted save never damages the file on disk', '''
If the process dies at any moment during a save, or the save fails for any reason (disk full, I/O error, unwritable
directory, text that cannot be encoded, unsupported format), the target file afterwards holds either its complete old contents or
the complete new document, never a truncated or mixed file, and a save that raised an error leaves the
old file (or its absence) as it was, with no debris beside it. After a failed save the animation in memory is unchanged, and a later plain save goes
where it would have gone before the failure.''',
  ['crash_points', 'fault_sequences'], 'every system-call boundary of a save as crash point or failing call, for .sif and .sifz, for new and existing targets',
  'No test makes a save fail or interrupts one.',
  ['sangfroid/format.py', 'sangfroid/animation.py'],
  [('write aside, then rename over', 'sangfroid/format.py save'), ('rebinding the file name only on success', 'sangfroid/animation.py Animation.save')],
  ['directory contents after the injected fault', 'result of the next plain save'])

p('C04', 'Format is told by content on opening and by extension on saving', '''
Opening recognises plain and gzipped animations by the content of the file, whatever it is called; saving under a name
chooses the format by that name's extension, ignoring case (.sif plain UTF-8 XML, .sifz gzipped), and makes that name and format the ones used by later plain saves, while a plain save goes to the
file last opened or saved. Empty files, unrecognised content, unsupported formats, unknown extensions and saving
a never-named animation are refused with an error and write nothing.''',
  ['configurations', 'histories'], 'every file name, extension, content kind and sequence of open / save / save-as',
  'Tests exercise two fixture names and one save-as; mismatched names, case, repeated save-as and refusals are not explored.',
  ['sangfroid/format.py', 'sangfroid/animation.py'],
  [('magic-number dispatch', 'sangfroid/format.py Format.from_filename'), ('extension dispatch', 'sangfroid/format.py Format.from_filename'), ('save-as', 'sangfroid/animation.py Animation.save')],
  ['files written, their first bytes and decoded content'])

p('C05', 'Reading never changes the document', '''
No read through the API - walking layers, indexing, searching, reading any parameter, attribute, setting, timeline or keyframe,
testing membership, comparing, copying out or printing - changes the document in any way, however reads are mixed. Repeating a read with no edit
in between gives an equal result, even when the read raises an error.''',
  ['histories', 'inputs'], 'every sequence of reads on every document, including documents with unusual or unreadable parts',
  'Tests check what a read returns, never that the document is the same afterwards.',
  ['sangfroid/layer/layer.py', 'sangfroid/layer/group.py', 'sangfroid/field.py', 'sangfroid/value/*.py', 'sangfroid/animation.py', 'sangfroid/keyframe.py'],
  [('wrappers hold a reference to the tag and only read it', 'sangfroid/value/value.py Value.__init__ / from_tag; sangfroid/layer/layer.py Layer.__init__')],
  ['canonical form of the whole document before and after each read'])

p('C06', 'An edit changes only the thing it names', '''
Setting one thing - a parameter, one part of a compound value, one waypoint, a layer attribute, an animation-wide setting -
changes nothing else: every other layer, parameter, waypoint, attribute and setting, in file order, is exactly as it was. Assigning a value taken from
one place to another place copies it: the source keeps its value, and later edits to either do not show in the other.''',
  ['histories', 'inputs'], 'every kind of edit at every place in every document, including nested groups whose layers share parameter names',
  'Tests look at the thing edited, in small documents with one layer of the kind edited.',
  ['sangfroid/field.py', 'sangfroid/layer/layer.py', 'sangfroid/layer/group.py', 'sangfroid/value/*.py'],
  [('locating a layer\'s own parameter', 'sangfroid/field.py ParamTagField; sangfroid/layer/layer.py __getitem__/__setitem__'),
   ('in-place rewriting of one tag', 'sangfroid/value/*.py value setters'), ('merging one part of a transformation', 'sangfroid/field.py ShortcutField; sangfroid/value/transformation.py')],
  ['document-wide diff across each edit'])

p('C07', 'What you assign is what you read back', '''
For every kind of parameter (real, integer, boolean, angle, time, string, colour, vector, gradient, transformation,
blend method) and every way of assigning one (as an attribute of the layer, by name in square brackets, through
the value object), assigning an acceptable value, whether the parameter was static or animated before, leaves it static and reading back equal to what was assigned,
to the precision the file format keeps, both at once and after saving and reopening. The same goes for a layer's active, excluded-from-rendering and description attributes.''',
  ['inputs', 'histories'], 'every parameter of every layer kind, every acceptable value, every assignment route, every previous state',
  'Tests assign one or two values per type to static parameters through one route.',
  ['sangfroid/field.py', 'sangfroid/layer/layer.py', 'sangfroid/value/*.py'],
  [('value setters', 'sangfroid/value/simple.py, string.py, color.py, vector.py, gradient.py, transformation.py, blendmethod.py'), ('field assignment', 'sangfroid/field.py __set__'), ('item assignment', 'sangfroid/layer/layer.py Layer.__setitem__')],
  ['value read through all three routes after each assignment'])

p('C08', 'A refused edit leaves the document untouched', '''
Values that do not fit what they are assigned to - wrong type, malformed colour, gradient of fewer than two stops, unknown
transformation key, malformed time, unknown interpolation, waypoint of the wrong type or clashing with an existing one, adding something that is not a layer, a parameter (named in brackets) the layer does not have - are refused with
an error rather than stored. Whenever any edit raises an error, the whole document and everything readable from it is exactly as before.''',
  ['inputs', 'histories'], 'every edit operation with every kind of unacceptable argument, on static and animated values',
  'Tests check that some bad values raise; none checks what is left behind.',
  ['sangfroid/value/*.py', 'sangfroid/layer/layer.py', 'sangfroid/layer/group.py', 'sangfroid/field.py'],
  [('validate before mutating', 'sangfroid/value/*.py setters; sangfroid/value/value.py Timeline, Value.timeline setter')],
  ['canonical form of the document before and after each refused edit'])

p('C09', 'Parameter reads report the layer\'s own entry in the file', '''
Every parameter or attribute read from a layer - as an attribute, by name in brackets, by membership test or by listing all of them -
reports the value and kind that this very layer's own entry has in the file, even when layers nested inside it, or before or after it, have
parameters of the same name. Attributes absent from the file read as their documented defaults, and asking for a parameter
that is nowhere in the layer raises an error.''',
  ['inputs'], 'every document: every nesting, every layer kind, every parameter kind, static or animated',
  'Tests read a few parameters in fixtures where no nested layer interferes; many declared parameters are never read.',
  ['sangfroid/field.py', 'sangfroid/layer/layer.py', 'sangfroid/layer/*.py', 'sangfroid/value/*.py'],
  [('parameter lookup', 'sangfroid/field.py ParamTagField._get_value; sangfroid/layer/layer.py Layer.__getitem__, __contains__, _as_dict'), ('type dispatch', 'sangfroid/value/value.py Value.from_tag')],
  ['public reads vs an independent parse of the same file'])

p('C10', 'A new layer is complete, with its documented defaults', '''
Creating a layer of any instantiable kind from nothing gives a layer of that kind carrying its type name and version and each of its
documented parameters exactly once, each reading as its documented default; added to an animation, saved and reopened, it is
recognised as the same kind and still reads the same. Two new layers share nothing: editing one never shows in another or in layers created later.''',
  ['inputs', 'histories'], 'every layer kind, any number created and edited in any order',
  'One test creates one kind of layer and compares its XML.',
  ['sangfroid/layer/layer.py', 'sangfroid/layer/*.py', 'sangfroid/field.py'],
  [('building the tag from the declared fields', 'sangfroid/layer/layer.py Layer._construct_empty_tag')],
  ['XML of the new layer; reads of each field, before and after save and reopen'])

p('C11', 'Groups behave as ordered lists of their immediate layers', '''
A group, or a whole animation, behaves as the list of its immediate layers in the reverse of file order: iteration, length and
indexing (from either end) all agree with the file and with each other, appending puts a layer at the end of that list, inserting at an existing index puts it just before the layer that was there, and
neither disturbs the order of the others; setting a group's canvas to a list of layers makes those its layers, in that order in the file. A group cannot be put inside itself. A layer added elsewhere moves: it is in exactly one place, and its
parent is the group it was last put in (none, for a layer directly in the animation).''',
  ['histories', 'inputs'], 'every nesting and every sequence of append, insert and move',
  'Tests do a few appends and inserts in one flat fixture group.',
  ['sangfroid/layer/group.py', 'sangfroid/layer/layer.py'],
  [('walking the canvas backwards', 'sangfroid/layer/group.py _get_children'), ('append and insert', 'sangfroid/layer/group.py')],
  ['layers listed through the API vs a list model and vs the file'])

p('C12', 'Searching finds exactly the layers that match', '''
Searching inside a group or animation returns exactly those layers within it, each once and in file order, that meet every criterion given - a type name ignoring
case and underscores, a concrete layer class, attribute or (static) parameter values, a yes/no predicate on the layer's XML element, or everything or nothing - at any depth, or among its immediate layers only
if asked. Finding one returns the first of these, or nothing if there are none, and conflicting or repeated criteria are an error.''',
  ['inputs'], 'every document and every combination of criteria',
  'Tests search fixtures with one criterion at a time.',
  ['sangfroid/layer/layer.py'],
  [('matching', 'sangfroid/layer/layer.py Layer.find_all, find')],
  ['results vs a scan of the same document by an independent matcher'])

p('C13', 'Time specifications mean what they say', '''
A time given as a number is that many frames, a negative number -k meaning k frames before one past the length of the animation (its end minus its start);
a time given in words is the sum of its hours, minutes, seconds and frames, each at most once, at the animation's own frame rate, a leading minus negating the whole; a time given as another time is that time.
Anything else - unknown units, stray characters, malformed numbers, repeated units, negative frames after a number of seconds, seconds or negative numbers where the frame rate or length is unknown (other than zero) - raises an error rather than giving a time.''',
  ['inputs'], 'every specification, frame rate and animation length',
  'Tests try about twenty specifications at 24 frames per second.',
  ['sangfroid/t.py'],
  [('parsing', 'sangfroid/t.py T._parse_time_spec'), ('frame rate lookup', 'sangfroid/t.py _canvas_root')],
  ['frames and seconds of the resulting time vs exact rational arithmetic'])

p('C14', 'Printed times read back as the same instant', '''
Writing any time out as text and reading that text back in the same animation gives the same instant, to within a millionth
of a frame, whatever its size, sign, fraction or frame rate; writing it out again gives the same text. The text consists only of hours,
minutes, seconds and frames in that order, with no unit exceeding the next larger one, and this is what is stored in files for every time set through the API.''',
  ['inputs'], 'every time and frame rate; every place a time is stored',
  'Tests print a handful of round times.',
  ['sangfroid/t.py', 'sangfroid/value/value.py', 'sangfroid/value/simple.py', 'sangfroid/animation.py'],
  [('formatting', 'sangfroid/t.py T.__str__')],
  ['parse(print(t)) vs t; time attributes in the document'])

p('C15', 'Times compare, sort and hash consistently', '''
Times in the same animation are totally ordered by frame count, and compare with plain numbers the same way; times that are equal, including to a plain number, have
equal hashes, so each works as a dictionary key for the other. Comparing times of different known frame rates is an error unless a frame count is zero, and a time never equals something that is not a time or number.''',
  ['inputs'], 'every pair and triple of times and numbers, with known, unknown and different frame rates',
  'Tests compare a few pairs.',
  ['sangfroid/t.py'],
  [('comparison', 'sangfroid/t.py T._compare, __lt__, __eq__, total_ordering'), ('hash', 'sangfroid/t.py T.__hash__')],
  ['results of all comparison operators and hash over generated pools'])

p('C16', 'A timeline is a sorted map from times to waypoints', '''
The timeline of a value behaves as a map from times to waypoints, always listed (and stored, once edited) in time order with at most one waypoint per time:
setting, adding, overwriting, deleting, assigning a whole timeline and looking up by any spelling of the same time give what a sorted map would, adding at an occupied time without overwriting is refused, and
looking up or deleting an absent time is an error. Every waypoint's time, value and interpolation read back as set, at once and after saving and reopening, and deleting the last one leaves the value static. Timelines whose waypoints are at different times are not equal.''',
  ['histories', 'inputs'], 'every sequence of timeline operations on values of every kind, static or animated, in or out of a document, listed in any order in the file',
  'Tests cover short fixed sequences on one real value.',
  ['sangfroid/value/value.py', 'sangfroid/t.py'],
  [('timeline wrapper', 'sangfroid/value/value.py Timeline'), ('storing waypoints sorted', 'sangfroid/value/value.py Value._set_waypoints')],
  ['each result vs a sorted-dictionary model; stored XML after each step'])

p('C17', 'Turning animation on and off keeps the value', '''
Marking a static number, boolean, angle, time, string, colour, vector or gradient as animated gives it a single waypoint at time zero holding the value it had; marking an animated value as not animated
leaves it static with the value of its earliest waypoint; doing either when already so changes nothing. This holds in or out of a document, through every handle to that value, and never alters anything else.''',
  ['inputs', 'histories'], 'every kind of value, static or with any number of waypoints, through one or several handles',
  'One test flips one real value.',
  ['sangfroid/value/value.py'],
  [('switching', 'sangfroid/value/value.py Value._set_animated')],
  ['value, timeline and XML before and after each switch through two handles'])

p('C18', 'Interpolation kinds are kept, normalised and checked', '''
A waypoint's incoming and outgoing interpolation are each one of tcb, clamped, constant, linear or ease (auto and halt being accepted spellings of tcb and ease), are clamped unless given when the waypoint is made,
are kept apart from each other and unchanged by storing in a timeline, saving, reopening and editing other waypoints. Anything else, including
undefined, is refused with an error and changes nothing.''',
  ['inputs', 'histories'], 'every pair of spellings, on values of every kind, through construction, assignment and file',
  'Tests try a few names on free-standing waypoints.',
  ['sangfroid/value/value.py'],
  [('checking', 'sangfroid/value/value.py Waypoint._check_interpolation_type'), ('writing', 'sangfroid/value/value.py Waypoint.tag'), ('reading', 'sangfroid/value/value.py Waypoint.from_tag')],
  ['waypoint attributes through the API and in the file'])

p('C19', 'By-words timing follows the subtitles', '''
When the text of a by-words group (one whose description begins with "bywords", in capitals or not; its text is the descriptions of its text layers that have one, joined in layer order with spaces, comparing only ASCII letters, digits and spaces and ignoring case) matches a subtitle, each of those layers shows nothing
at time zero (unless a word appears then) and then, at each word (or character, if asked to go letter by letter), its description up to and including that word; the first word of the group appears when the subtitle starts and each later one after a share
of the subtitle's duration proportional to the length of the words before it, in every layer of the group. All words appear, in order, within the subtitle's time, stepping without interpolation.''',
  ['inputs', 'configurations'], 'every set of subtitles and groups, in word and letter mode, at every frame rate',
  'One fixture song is checked in each mode, against a few of its words.',
  ['bywords/bywords.py', 'bywords/adjust.py'],
  [('matching and timing', 'bywords/bywords.py BywordsGroup.matches'), ('writing waypoints', 'bywords/adjust.py')],
  ['waypoints written vs a schedule computed independently from the subtitles'])

p('C20', 'By-words touches only the text it animates', '''
Running by-words changes only the text parameter of text layers in matched by-words groups: every other layer and parameter, unmatched groups and everything else in the file stay exactly as
they were, subtitles or groups without a match are tolerated, and the subtitles are not altered. Running it again with the same subtitles gives the same result as running it once.''',
  ['inputs', 'histories'], 'every animation and subtitle file, including no matches, empty subtitles, layers without descriptions, repeated runs',
  'Tests check the words found in one fixture, not the rest of the file.',
  ['bywords/bywords.py', 'bywords/adjust.py', 'bywords/__main__.py'],
  [('selection of groups', 'bywords/bywords.py Bywords'), ('writing', 'bywords/adjust.py')],
  ['document diff across a run, outside the matched text parameters'])

p('C21', 'Colours convert faithfully between their notations', '''
A colour given as six or eight hex digits, with or without #, in either case, or as three or four numbers from 0 to 1, or copied from another colour, reads back as the same colour in both
notations: hex to hex exactly, numbers to within a millionth, opacity defaulting to full and omitted from the hex form exactly when full there. Colours compare equal to any notation of the same colour and unequal to colours whose hex form differs, and malformed notations are errors.''',
  ['inputs'], 'all colours in every notation, static, in waypoints and in gradients',
  'Tests try around ten colours.',
  ['sangfroid/value/color.py'],
  [('conversion', 'sangfroid/value/color.py Color.value, as_tuple, __eq__')],
  ['string and tuple forms vs an independent conversion'])

p('C22', 'Compound values are consistent with their parts', '''
For vectors, transformations and gradients, every way of looking - whole value, by name, by position, by attribute, by listing keys, values or items,
length, conversion to tuple, comparison, and shortcuts on the layer - gives the same parts, before and after any edit of one part or of the whole. Editing one part, including one that was or is animated, leaves the other parts as they were, and a gradient is always
listed in order of position with each position once.''',
  ['inputs', 'histories'], 'every compound value and sequence of whole and partial edits',
  'Tests check a few views of a few fixed values.',
  ['sangfroid/value/vector.py', 'sangfroid/value/transformation.py', 'sangfroid/value/gradient.py', 'sangfroid/field.py'],
  [('views', 'sangfroid/value/vector.py, transformation.py, gradient.py'), ('shortcuts', 'sangfroid/field.py ShortcutField')],
  ['all views vs a plain dictionary model'])

p('C23', 'Animation-wide settings and keyframes reflect the file', '''
An animation's size, resolution, gamma, view box, frame rate, start and end times, length in frames, background, antialiasing, name, description and keyframes (in file order, with time, name and whether active) always read as the file has them, with
documented defaults for those absent (an absent name or description being empty, the frame rate and times being always present; a keyframe is active unless it says not; the length is one frame more than the end minus the start). Setting any settable one changes just that entry in the document, reads back as set (times in the animation's own frame rate), and survives saving and reopening.''',
  ['inputs', 'histories'], 'every header of every file; every setting set to any acceptable value in any order',
  'Tests read some settings of two fixtures and set none.',
  ['sangfroid/animation.py', 'sangfroid/keyframe.py', 'sangfroid/field.py'],
  [('attribute fields', 'sangfroid/animation.py Animation; sangfroid/field.py TagAttrField, NamedChildField'), ('keyframes', 'sangfroid/keyframe.py')],
  ['public reads vs an independent parse of the header; document diff across sets'])

p('C24', 'The template tool rewrites only the marked blocks', '''
Given replacement texts by block name, the source-rewriting tool replaces the inside of each marked block of that name (or, for the first unnamed block of a class, of that
class's name) with the new text indented to the block, leaves every other line of the file alone (closing markers of a rewritten file being aligned with their opening ones), and does not touch files in which nothing is to be replaced. Running it twice gives the same as running it once, and
files with blocks that are unnamed with no class to name them, unclosed, opened inside another or closed without opening are refused with an error and left alone.''',
  ['inputs', 'histories'], 'every source file (with LF line endings) and replacement text, where neither the replaced insides nor the replacements contain markers or class lines themselves',
  'No test covers the tool.',
  ['sangfroid/template/replacer.py'],
  [('line scanner', 'sangfroid/template/replacer.py Replacer.handle'), ('write aside then rename', 'sangfroid/template/replacer.py Replacer.write_to')],
  ['file contents before and after vs a reference rewriting'])

p('C25', 'Layer and value kinds are recognised by name', '''
Every layer and every value in a file is given the one kind its name stands for, ignoring case and underscores, and static and animated forms of a value are the same kind; names that stand for
nothing raise an error instead of being taken for something else. A kind registered later is found under its name, or its class name if none was given, and does not disturb other kinds.''',
  ['inputs', 'configurations'], 'every name, in every spelling; every order of registration',
  'Tests look up a few names in a toy registry.',
  ['sangfroid/registry.py', 'sangfroid/util.py', 'sangfroid/layer/layer.py', 'sangfroid/value/value.py'],
  [('registry', 'sangfroid/registry.py Registry'), ('dispatch', 'sangfroid/layer/layer.py Layer.from_tag; sangfroid/value/value.py Value.from_tag')],
  ['classes obtained for spellings of every known name and for random names'])

p('C26', 'Plain values act as the plain things they hold', '''
A static real number, integer, boolean, angle, time, string or blend method value stands for the plain thing it holds: it is equal, in either order, to that thing, to plain things equal to it and to other values of its kind holding
it (real numbers to within a ten-thousandth), and unequal to different ones and to things of other sorts (booleans being compared only with booleans), and != is always the opposite of ==; float(), int(), bool() and, for text, str() give what is held; and each named blend method is the number
Synfig gives it.''',
  ['inputs', 'histories'], 'every plain value, however obtained and edited, and every thing it may be compared with (a T only with the value on the left; times at frame rates where writing them loses nothing)',
  'Tests compare a few values with the literals they were set to.',
  ['sangfroid/value/simple.py', 'sangfroid/value/string.py', 'sangfroid/value/blendmethod.py', 'sangfroid/value/value.py'],
  [('comparison', 'sangfroid/value/simple.py Simple.__eq__, Integer.__eq__, _compare_with; sangfroid/value/value.py Value.__eq__'), ('conversion', 'sangfroid/value/simple.py Numeric, Bool, Angle'), ('blend method numbers', 'sangfroid/value/blendmethod.py BlendMethod')],
  ['results of comparing and converting vs the plain things themselves'])

p('C27', 'The by-words command rewrites the named file, or leaves it alone', '''
Running the by-words command on an animation file, with subtitles named or (by default) in the .srt file of the same name beside it, leaves in that file, in the format it had, just what the library gives for the same animation, subtitles and choice of words or letters,
whatever the current directory and however much it is asked to print, and touches no other file. If it cannot be done - a file is missing, is not an animation, or the arguments make no sense - it ends with an error status and every file is as it was.''',
  ['inputs', 'configurations'], 'every animation and subtitle file, every combination of arguments, every current directory',
  'Tests never run the command.',
  ['bywords/__main__.py', 'bywords/adjust.py', 'bywords/bywords.py', 'sangfroid/format.py'],
  [('command line', 'bywords/__main__.py main'), ('saving in place', 'sangfroid/animation.py Animation.save')],
  ['exit status, and the contents of the directory before and after'])

p('C28', 'Animations do not affect one another', '''
Whatever is done to one animation has no effect on any other open at the same time, even one opened from the same file: any interleaving of work on several animations, and work on each in a thread of its own, gives every read, document and saved file
that the same work gives when done alone.''',
  ['schedules', 'histories'], 'every interleaving, and every thread schedule, of every set of histories on separate animations',
  'Tests open one animation at a time, in one thread.',
  ['sangfroid/animation.py', 'sangfroid/format.py', 'sangfroid/field.py', 'sangfroid/layer/layer.py', 'sangfroid/value/value.py', 'sangfroid/t.py'],
  [('state lives in the tree of each document', 'sangfroid/animation.py Animation.__init__'), ('descriptors shared by all layers', 'sangfroid/field.py Field')],
  ['reads, final documents and files of the same histories run alone, interleaved and in threads'])

p('C29', 'All handles on the same thing agree', '''
However many handles there are on the same layer, group, value or timeline, whichever way (index, iteration, search, parent, attribute, brackets, listing) and whenever they were obtained, they all report the same: an edit made through any one of them shows at once in all
the others, including when it makes a value animated or static, adds layers to a group or moves a layer elsewhere. (A handle on a value stays on it until its parameter is assigned another value object.)''',
  ['histories'], 'every set of handles and every history of edits of plain values, waypoints, attributes and structure through them',
  'Tests mostly look through the handle they edited.',
  ['sangfroid/value/value.py', 'sangfroid/layer/layer.py', 'sangfroid/layer/group.py', 'sangfroid/field.py'],
  [('handles hold only the element', 'sangfroid/value/value.py Value._tag, Timeline.parent; sangfroid/layer/layer.py Layer._tag'), ('editing in place', 'sangfroid/value/value.py Value._prepare_static_tag, _set_animated, _set_waypoints')],
  ['reads through every handle after every edit, against each other, new handles, what was set, and the saved file'])

if __name__ == '__main__':
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + '\n')
    print(len(P))
