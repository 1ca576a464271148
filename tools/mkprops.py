# Writes /verif/properties.jsonl (the source of truth for titles/statements/anchors).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({'state': [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                               **({'observe_at': observe} if observe else {}))))
GP='gsapi/gspattern.py'
prop('C01','Events compare field by field and copies are independent',
 "Two events are equal exactly when start time, duration, pitch, velocity and tag all agree; inequality is always the negation of equality, and an event never equals something that is not an event. Copying an event gives a distinct event equal to the original, and copying leaves the original as it was. Tag comparisons between an event and a tag (or another event) answer exactly whether the tags are equal, or whether one of the given tags equals the event's tag or is a member of it.",
 ['inputs'],'every pair of events with arbitrary numeric fields and arbitrary string or tuple tags, every list of tags to compare with',
 'the tests compare a handful of imported events; a wrong or missing field in the comparison is invisible unless two events differ in that field only',
 [GP],[('Event.__eq__ / __ne__ compare five fields',GP+' Event.__eq__'),('deep copy',GP+' Event.copy'),('tag tests',GP+' Event.hasOneOfTags, hasCommonTagWith, isTag, allTagsAreEqualWith')])
prop('C02','Time queries return exactly the events active or starting then',
 "An event is active from its start time (included) to its start plus duration (excluded), and a pattern's active-events query returns exactly the events active at the given time. The starting-events query returns exactly the events that start at the given time or at most the given tolerance before it. Both return the pattern's own event objects, each once, in pattern order, and change nothing.",
 ['inputs'],'every pattern (any number of events, any order, zero or negative durations included), every query time and tolerance',
 'the descriptor tests query a few integer times of small hand-written patterns; boundaries, ties and long patterns are not covered',
 [GP],[('half-open interval test',GP+' Event.containsTime, Event.endTime, Pattern.activeEventsAtTime'),('tolerance window',GP+' Pattern.getStartingEventsAtTime')])
prop('C03','Selecting by tag or pitch partitions a pattern and keeps its metadata',
 "Selecting events by pitch, by tag (exact or inclusive), by a list of tags or by a predicate on tags returns a new pattern holding exactly the matching events in their original order, and the exclusion query with the same arguments returns exactly the others. The returned pattern has the duration, start time, tempo, time signature, key, name, origin file and resolution of the source; its events are the source's own objects when no copy is asked for and distinct equal copies otherwise. The set of all tags, the list of all pitches and the list of events identical to a given one contain exactly what occurs in the pattern, and none of these queries changes the source pattern.",
 ['inputs'],'every pattern, every kind of selector, both copy modes',
 'tests select by one or two fixed tags; they never check the complement, object identity, metadata or that the source is untouched',
 [GP],[('selectors',GP+' Pattern.getPatternWithTags, getPatternWithoutTags, getPatternWithPitch'),('metadata copy',GP+' Pattern.copyWithoutEvents'),('enumerations',GP+' Pattern.getAllTags, getAllPitches, getIdenticalEvents')])
prop('C04','A pattern lasts at least until its last event ends, whole bars on request',
 "Adding an event appends it without losing or altering any other event, and afterwards the pattern's duration is the larger of its previous duration and the latest end time of all its events, whatever order the events were added in. Fitting the duration to the last event never shortens the pattern unless asked to, in which case the duration becomes exactly the latest end. Fitting to bars gives the smallest whole number of bars that is not shorter than the pattern.",
 ['inputs','histories'],'every pattern and every sequence of additions, any event order, nested and overlapping events',
 'tests never add a long early event together with a short late one, nor look at durations after a sequence of additions',
 [GP],[('duration update',GP+' Pattern.addEvent, durationToLastEvent, lastNoteOff'),('bar rounding',GP+' Pattern.durationToBar')],
 state=[('Pattern.duration','length of the pattern in beats',GP+' Pattern.__init__')])
prop('C05','Time stretch and transposition act uniformly on every event',
 "Stretching a pattern by a ratio multiplies every start time, every duration and the pattern's own duration by that ratio and changes nothing else. Transposing by an interval adds the interval to every pitch, retags every event with the name of its new pitch, and changes no time, duration or velocity, nor the number or order of events. The name of a pitch is that of its pitch class followed by its octave number, counted so that pitch 0 lies in octave -1; a pitch written with a given list of names uses that list cyclically.",
 ['inputs'],'every pattern of distinct events, every ratio, every integer interval',
 'the stretch test looks at one event of one pattern; transposition is not tested at all',
 [GP,'gsapi/gsutil.py'],[('stretch',GP+' Pattern.timeStretch'),('transpose',GP+' Pattern.transpose'),('pitch naming','gsapi/gsutil.py pitch2name')])
prop('C06','Quantising puts every event on the grid, moving it as little as possible',
 "After quantising to a step, every start time is the multiple of the step nearest to where it was (halfway cases go down), and every duration is the multiple of the step nearest to what it was (halfway cases go up), or one step if it was shorter than half a step. Only the aspects asked for are quantised. Pitch, velocity, tag, the pattern's duration and the order and number of events never change.",
 ['inputs'],'every pattern with non-negative times, every positive step, all four switch combinations',
 'no test calls it; the rounding arithmetic has ties and three branches per field',
 [GP],[('rounding on a doubled grid',GP+' Pattern.quantize')])
prop('C07','A time slice holds copies of exactly the events starting inside it',
 "Slicing a pattern at a start time for a length gives a new pattern of that length and start time, with one copy per event whose start lies in the half-open slice, in order, its start time counted from the slice's start. With trimming, every copy ends no later than the slice's end and is shortened only as far as needed; without trimming durations are kept. The sliced pattern and all of its events are left unchanged.",
 ['inputs'],'every pattern, every start and length, both trimming modes',
 'one test slices at 0 only and does not check the source, boundaries or trimming',
 [GP],[('slice',GP+' Pattern.patternFromTimeSlice')])
prop('C08','Splitting into equal lengths conserves all sounding time',
 "Splitting a pattern into consecutive cuts of a given length yields, for cut number k, a pattern of that length starting at k times the length, in increasing order of k, with every event cut at the boundaries it crosses: each piece keeps pitch, velocity and tag, lies inside its cut and is timed relative to it. The pieces of an event lie end to end and cover exactly the event's own time span. Empty cuts are left out or returned as placeholders as requested, and with copying on the source pattern is not changed.",
 ['inputs'],'every pattern with non-negative start times that lasts until the end of its last event, every positive length',
 'tests split imported files at length 4 and check only that pieces are well formed, not that time is conserved',
 [GP],[('recursive splitter',GP+' Pattern.splitInEqualLengthPatterns')])
prop('C09','Filling with silences leaves no gap and touches no sounding event',
 "After filling a pattern with silences every original event is still there unchanged, every moment between zero and the pattern's duration lies in some event, and no silence overlaps a sounding event or another silence; when filling tag by tag this holds for each tag separately. Each added event carries the requested tag and pitch, velocity zero, a positive duration, and at most the maximal silence length when one is given. The variant that returns a filled copy does not change the pattern it is called on.",
 ['inputs'],'every pattern with non-negative start times and positive durations, every maximal silence length',
 'the silences test only checks that the filled pattern of one file is well formed; it cannot establish full coverage for every pattern',
 [GP],[('gap filler',GP+' Pattern.fillWithSilences, getFilledWithSilences')])
prop('C10','Grid alignment snaps starts to steps and leaves no overlap within a tag',
 "After aligning a pattern on a grid, every event starts on the whole multiple of the step nearest to its original start, lies before the pattern's end, and lasts at most one step. After removing overlaps no two events with the same tag (or the same pitch, if so requested) overlap in time, events are in time order, no event is invented, an event is only ever shortened, never moved or lengthened, and one disappears only when a later-listed event of the same voice starts at exactly the same time.",
 ['inputs'],'every pattern with non-negative durations, every positive step, both discrimination modes',
 'tests check one imported file; chains of three or more overlapping events and simultaneous starts are not covered',
 [GP],[('alignment',GP+' Pattern.alignOnGrid'),('overlap removal',GP+' Pattern.removeOverlapped')])
prop('C11','Removing events removes exactly the matching ones',
 "Removing an event from a pattern removes every event equal to it and no other; removing by tags removes every event carrying one of the tags and no other. The remaining events are the same objects in the same order, unchanged, and the pattern's duration and metadata do not change.",
 ['inputs'],'every pattern, including several equal or adjacent matching events, every event and tag list',
 'not tested; failures need two or more matches',
 [GP],[('removal',GP+' Pattern.removeEvent, removeByTags')])
prop('C12','Legato and gap closing extend events exactly to the next onset',
 "Applying legato only ever lengthens events: within a voice (same pitch, or same tag) a gap between an event's end and the next start is closed exactly, and the last event of the voice reaches the pattern's end. Closing gaps with previous events makes every event last exactly until the next later onset in the pattern, or until the pattern's end. Start times, pitches, velocities, tags and the set of events never change.",
 ['inputs'],'every pattern whose events start no later than its end, both voice modes, events in any order',
 'one test applies legato and checks only well-formedness',
 [GP],[('legato',GP+' Pattern.applyLegato'),('gap closing',GP+' Pattern.fillWithPreviousEvent')])
prop('C13','The JSON form of a pattern loads back to the same pattern',
 "Writing a pattern to its JSON dictionary and loading that dictionary gives a pattern with the same name, tempo, time signature and duration, and the same events in the same order with equal start time, duration, pitch, velocity and tag, viewpoints included; with tag indexing a plain tag may come back as the one-element tuple of itself. Every tag index written refers into the tag list written beside it. Writing never changes an event.",
 ['inputs'],'every pattern, with and without tag indexing, any number of repeated tags, loaded into a new empty pattern',
 'the JSON test covers imported files without indexing only',
 [GP,'gsapi/gsio.py'],[('encoder',GP+' Pattern.toJSONDict'),('decoder',GP+' Pattern.fromJSONDict')])
prop('C14','MIDI number encodings decode to the value they encode',
 "A variable-length quantity from 0 to 2^28-1 is written as one to four bytes of which exactly the last has its top bit clear, and reading those bytes gives the value back and consumes no byte more. The note, aftertouch, controller, program, tempo, pitch-wheel, key-signature and time-signature fields of a MIDI event read back what was set, for every value the format can represent, and every byte they store is between 0 and 255. Setting one field leaves the others as they were.",
 ['inputs'],'every value in the representable range of each field',
 'no test exercises the codecs beyond the few values occurring in the corpus',
 ['gsapi/midiio.py'],[('varlen','gsapi/midiio.py read_varlen, write_varlen'),('field properties','gsapi/midiio.py SetTempoEvent, PitchWheelEvent, KeySignatureEvent, TimeSignatureEvent, NoteEvent, AfterTouchEvent, ChannelAfterTouchEvent, ControlChangeEvent, ProgramChangeEvent')])
prop('C15','A MIDI event written to a track is read back as the same event',
 "For every channel message, meta event and system-exclusive message with data bytes in range, the bytes the writer produces are parsed by the reader into an event of the same kind with the same delta time, channel, meta command and data, consuming exactly those bytes. This holds for every sequence of events in a track, whether or not the status byte is omitted under running status.",
 ['inputs','histories'],'every event and every sequence of events in a track',
 'the corpus files contain few kinds of message and mostly no running-status interleavings with meta events',
 ['gsapi/midiio.py'],[('writer with running status','gsapi/midiio.py FileWriter.encode_midi_event'),('reader with running status','gsapi/midiio.py FileReader.parse_midi_event')],
 state=[('RunningStatus','last channel status, on both sides','gsapi/midiio.py FileReader, FileWriter')])
prop('C16','Absolute and relative ticks convert into each other',
 "Making a track's ticks absolute turns them into the running sums of the relative ticks, and making them relative turns them into successive differences, so doing one after the other restores every tick. Converting a track that is already in the requested form changes nothing. A whole MIDI pattern converts track by track, and nothing but ticks and the mode flag ever changes.",
 ['inputs','histories'],'every track of any length with any ticks, any sequence of conversions',
 'the tests only ever convert once per import',
 ['gsapi/midiio.py'],[('tick conversion','gsapi/midiio.py Track.make_ticks_abs, make_ticks_rel, Pattern.make_ticks_abs, make_ticks_rel')],
 state=[('tick_relative','current form of the ticks','gsapi/midiio.py Track, Pattern')])
prop('C17','Note-to-tag mapping applies every matching rule and never alters the map',
 "A note gets exactly the tags of the map that have a rule matching both its pitch and its channel, a star matching anything: none gives the empty tuple, a single one gives the plain tag, several give the tuple of them. A bare pitch in the map means that pitch on any channel, a bare rule means a one-rule list, and a pitch-name map names the pitch. Using a map, once or many times, never changes the caller's map.",
 ['inputs','histories'],'every map, every pitch and channel, repeated use of one map',
 'tests import with one or two built-in maps and never inspect the map afterwards or use wildcards on channels',
 ['gsapi/gsio.py','gsapi/gsutil.py'],[('map normalisation','gsapi/gsio.py __tagFromMidiNote'),('rule matching','gsapi/gsio.py __tagsFromMidiNoteAndChannel'),('track names','gsapi/gsio.py __tagFromTrackName')])
prop('C18','Exported MIDI carries every event and reads back as the same notes',
 "Exporting a pattern to a MIDI file writes, for every event, a note-on at the event's start and a note-off at its end (in ticks, rounded down), with the event's pitch and velocity, plus the time signature, tempo and, when there is one, key, with non-negative delta times and a final end-of-track at the pattern's duration. Importing the file gives the notes back with the same pitch and velocity and times within one tick, for patterns without overlapping equal pitches. Exporting does not change the pattern.",
 ['inputs'],'every pattern with pitches and velocities in MIDI range and non-negative times',
 'the round-trip test is among those that do not pass reliably, and covers corpus files only',
 ['gsapi/gsio.py','gsapi/midiio.py'],[('export','gsapi/gsio.py toMidiFile'),('import','gsapi/gsio.py fromMidiFile')])
prop('C19','Density is the total sounding duration, tag count the distinct tags',
 "The density of a pattern is the sum of the durations of exactly those events whose tag is not ignored and, when tags to include are given, is one of them; it is additive over any split of the events. The number of tags is the number of distinct tags among the same events. Neither descriptor changes the pattern.",
 ['inputs'],'every pattern, every list of ignored and included tags',
 'the density tests use small hand-made patterns with one or two tags',
 ['gsapi/gsdescriptors.py',GP],[('density','gsapi/gsdescriptors.py Density.getDescriptorForPattern'),('number of tags','gsapi/gsdescriptors.py NumberOfTags.getDescriptorForPattern')])
prop('C20','Syncopation is a pure, non-negative function of onsets and metre',
 "The syncopation value is the sum, over the steps that have a sounding event and whose next step (cyclically) has none, of the absolute difference of the metrical weights of the two steps. The weights depend only on the pattern's length, so the value does not depend on which patterns the descriptor was applied to before; it is never negative, and is zero for a pattern with no event or with every step sounding. Computing it does not change the pattern.",
 ['inputs','histories'],'every pattern of positive duration, every sequence of patterns given to one descriptor object',
 'the test checks a few fixed rhythms on fresh descriptors',
 ['gsapi/gsdescriptors.py'],[('weights','gsapi/gsdescriptors.py Syncopation.__buildSyncopationWeight'),('grid','gsapi/gsdescriptors.py Syncopation.__buildBinarizedGrid'),('sum','gsapi/gsdescriptors.py Syncopation.getDescriptorForPattern')],
 state=[('weights','metrical weights cached between calls','gsapi/gsdescriptors.py Syncopation')])
prop('C21','Chord detection returns a best-scoring root and type, silence if nothing sounds',
 "Matching a chroma vector against a profile gives, for every rotation, the inner product of the chroma with the rotated profile minus the penalty for each profile note that does not sound. The best-match search returns a root and profile whose score is the maximum over all profiles and rotations whenever some score is positive. A pattern in which nothing but silence sounds is reported as silence, and detecting a chord does not change the pattern.",
 ['inputs'],'every chroma vector, every profile dictionary and penalty, every pattern',
 'the chord test tries a few transpositions of plain chords with no noise',
 ['gsapi/gsdescriptors.py'],[('scoring','gsapi/gsdescriptors.py convolveWithPitchProfile'),('maximum','gsapi/gsdescriptors.py findMaxAndIdx, findBestScoreForProfiles'),('descriptor','gsapi/gsdescriptors.py Chord.getDescriptorForPattern')])
prop('C22','A learnt Markov table holds exactly the observed transition frequencies',
 "After learning from a list of patterns, the table has one entry per step, and the probability of an event set given a context at a step is the number of training patterns showing that context and event set there divided by the number showing that context there. Every row sums to one and every probability is positive. Learning does not change the training patterns.",
 ['inputs'],'every list of training patterns whose length matches the table, every order and number of steps',
 'the style tests only check that generation works on corpus files',
 ['gsapi/gsstyles.py'],[('counting and normalising','gsapi/gsstyles.py PatternMarkov.buildTransitionTable, getLastEvents, _buildTupleForEvents')],
 state=[('transitionTable','per step, context -> event set -> probability','gsapi/gsstyles.py PatternMarkov')])
prop('C23','Generated Markov patterns only use learnt transitions and repeat by seed',
 "Every step of a generated pattern after the opening context is an event set that the table allows with positive probability after the preceding context, and every allowed choice can be generated. The generated pattern has the loop duration, every event lies on a step, lasts one step and is not a silence. The same table and the same seed give the same pattern.",
 ['inputs','histories'],'every learnt table and every seed',
 'generation is random; a test sees a few draws and cannot see a choice that is never made',
 ['gsapi/gsstyles.py'],[('sampling','gsapi/gsstyles.py PatternMarkov.generatePattern')])
prop('C24','Pitch spelling tables agree with pitch classes in every octave',
 "Spelling a pitch class with sharps or with flats gives the note name and the base-40 number of the same pitch, the two agreeing with each other, for every integer whatever its octave; any other accidental choice is rejected. A chord spelled from a root lists one name per interval plus the root, each the name reached by adding up the intervals, wrapping around at 40.",
 ['inputs'],'every integer pitch, both accidental choices, every root and interval list',
 'nothing tests these helpers',
 ['gsapi/gsutil.py','gsapi/gsdefs.py'],[('tables','gsapi/gsutil.py pc2note, pc2base40, makeChord; gsapi/gsdefs.py pitch40')])
prop('C25','Density transformation keeps the pattern length and is neutral at density one',
 "Transforming a pattern for density gives a pattern with the duration of the input, all events on the step grid. With every density at one the result is the input aligned on the grid, also after any sequence of other densities. Below one a tag keeps a subset of its onsets, above one a superset, never two on one step; raising a tag's density removes none of its events, lowering it adds none, and a tag whose density stays the same keeps its events. The input pattern is not changed, and another input starts afresh.",
 ['inputs','histories'],'every pattern and every sequence of density requests',
 'the transformer tests use one file and a fixed sequence of densities',
 ['gsapi/gstransformers.py'],[('density state machine','gsapi/gstransformers.py AgnosticDensity')])
prop('C26','A viewpoint has one descriptor value per slice, in order',
 "A viewpoint computed with a fixed slice length, per onset or for the whole pattern holds one event per (non-empty) slice, starting where the slice starts, lasting as long as the slice, tagged with the descriptor's value for that slice and pointing back to it. Per-onset slices hold exactly the events active at that onset. Computing a viewpoint stores it under its name and does not change the pattern's events.",
 ['inputs'],'every pattern, slice type and descriptor',
 'tests generate viewpoints on corpus files with slice length 4 and only compare them after a file round trip',
 [GP],[('viewpoints',GP+' Pattern.generateViewpoint')])
prop('C27','A dataset slices all of its patterns and loses none',
 "Slicing a dataset gives the slices of each of its patterns, pattern after pattern, in order, and nothing else. Indexing a dataset gives the pattern at that position of its pattern list.",
 ['inputs'],'every list of patterns and every slice length',
 'tests load a fixed folder',
 ['gsapi/gsdataset.py'],[('slicing','gsapi/gsdataset.py Dataset.getAllSliceOfDuration, __getitem__')])
prop('C28','Bass model matrices stay normalised and sampling follows them',
 "Normalising a model makes every non-empty row of its matrices a probability distribution proportional to the counts. Sampling a distribution returns the choice whose interval of the cumulated weights holds the random number drawn, so that every choice with a positive weight can be drawn and none of weight zero ever is. Encoding a rhythm per beat gives one symbol per beat determined only by the onsets in that beat.",
 ['inputs'],'every corpus of rhythms',
 'the bass module has no tests',
 ['gsapi/bassmine.py'],[('normalisation','gsapi/bassmine.py normalize, MarkovModel.normalize_model'),('encoding','gsapi/bassmine.py binaryBeatPattern, translate_rhythm')])
prop('C29','File-name helpers strip and match suffixes exactly',
 "Stripping a suffix removes it exactly when the name ends with it and otherwise returns the name unchanged. Searching files returns a sorted list without duplicates of exactly the files with one of the suffixes.",
 ['inputs'],'every name and suffix, every directory content',
 'not tested',
 ['gsapi/gsutil.py'],[('helpers','gsapi/gsutil.py strip_suffix, search_files, match_files')])
prop('C30','A pattern saved to a file loads back as the same pattern',
 "Saving a pattern to a JSON file writes exactly one file, in the given folder (made if missing) and named after the pattern and the given suffix, returns its absolute path, and loading that file with the same options gives a pattern with the same name, tempo, time signature and duration, and the same events in the same order with equal start time, duration, pitch, velocity and tag, viewpoints included. Tuples among the tags, nested ones too, come back as tuples when they are asked to be conserved and as lists otherwise; with tag indexing a plain tag may come back as a one-element tuple (or list). The same holds for pickle files, with every field kept. Saving changes no event.",
 ['inputs'],'every pattern, every choice of options and name suffix',
 'the tests save and load imported corpus files with one set of options',
 ['gsapi/gsio.py',GP],[('JSON files','gsapi/gsio.py toJSONFile, fromJSONFile'),('pickle files','gsapi/gsio.py toPickleFile, fromPickleFile'),('dictionary form',GP+' Pattern.toJSONDict, fromJSONDict')])
prop('C31','A style reports exactly what it learnt and is the same when saved and loaded',
 "The states, contexts and event sets a learnt Markov model reports for a step (counted from the start, or from the end when negative) and for all steps are exactly those of its table, once each; the matrix of a step holds the table's probability for every context and event set, and matrices of several steps add up. Asking changes nothing. Saving a style (as its state, as JSON or as a pickle file) and loading it into a new one gives the same transition table, order, number of steps and loop duration, or for a database style the same patterns in order; a style is said to be built exactly when it has learnt or loaded something. A database style gives its own patterns: one after the other, the current one or any one of them, as it was set up.",
 ['inputs','histories'],'every list of training patterns, every order, number of steps and loop duration, every step, every way of saving',
 'tests only check that a matrix of one step is there',
 ['gsapi/gsstyles.py'],[('queries','gsapi/gsstyles.py PatternMarkov.getAllPossibleStates, getAllPossibleStatesAtStep, getPossibleInStatesAtStep, getPossibleOutStatesAtStep, getMatrixAtStep'),('saving','gsapi/gsstyles.py BaseStyle.saveToJSON, loadFromJSON, saveToPickle, loadFromPickle; getInternalState, setInternalState, isBuilt of each style'),('database','gsapi/gsstyles.py DatabaseStyle.generatePattern')],
 state=[('transitionTable','per step, context -> event set -> probability','gsapi/gsstyles.py PatternMarkov'),('patternList','patterns of a database style','gsapi/gsstyles.py DatabaseStyle')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
for p in P:
    assert len(p['title'])<=80,(p['id'],len(p['title']))
