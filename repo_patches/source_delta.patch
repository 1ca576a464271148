From f9f05328ee6adc42c8ee72e5b5b4ffe39f0642e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 01/32] fix: allTagsAreEqualWith and getIdenticalEvents return
 their result

---
 gsapi/gspattern.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 92962a9..c93d07f 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -144,7 +144,7 @@ class Event(object):
             bool: True if tags are equal.
 
         """
-        self.isTag(myEvent.tag)
+        return self.isTag(myEvent.tag)
 
     def endTime(self):
         """Get the time at which the Event ends.
@@ -659,6 +659,7 @@ class Pattern(object):
                     e) if allTagsMustBeEquals else event.hasCommonTagWith(e)
             if equals:
                 res += [e]
+        return res
 
     def getFilledWithSilences(self, maxSilenceTime=0, perTag=False, silenceTag='silence'):
         pattern = self.copy()
-- 
2.43.0


From 5cc394b4915eb680c33ef71f821381b12a8395ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 02/32] fix: copyWithoutEvents copies key, startTime and
 resolution too

---
 gsapi/gspattern.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index c93d07f..923b670 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -414,6 +414,9 @@ class Pattern(object):
         p.timeSignature = self.timeSignature
         p.originFilePath = self.originFilePath
         p.name = self.name
+        p.key = self.key
+        p.startTime = self.startTime
+        p.resolution = self.resolution
         return p
 
     def fillWithPreviousEvent(self):
-- 
2.43.0


From 237991d5f0aad02f4bfc9cd3413112baa76b8ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 03/32] fix: lastNoteOff is the latest end of all events

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 923b670..a979b37 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -682,7 +682,7 @@ class Pattern(object):
         """
         if len(self.events):
             self.reorderEvents()
-            return self.events[-1].duration + self.events[-1].startTime
+            return max([e.endTime() for e in self.events])
         else:
             return None
 
-- 
2.43.0


From 8099bdb4cbd2b5493c1c1c16a6ea6f456e1d22c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 04/32] fix: durationToLastEvent takes a last note off at zero
 into account

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index a979b37..47d1de2 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1045,7 +1045,7 @@ class Pattern(object):
 
         """
         total = self.lastNoteOff()
-        if total and (total > self.duration or not onlyIfBigger):
+        if total is not None and (total > self.duration or not onlyIfBigger):
             self.duration = total
 
     def durationToBar(self):
-- 
2.43.0


From de5e68613cdc54da45f6545537bbe3458c8dbc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 05/32] fix: removeEvent and removeByTags remove all matching
 events and no other

---
 gsapi/gspattern.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 47d1de2..42f7038 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -914,24 +914,14 @@ class Pattern(object):
         Args:
             tags: list of tag(s)
         """
-        for e in self.events:
-            if e.hasOneOfTags(tuple(tags)):
-                self.removeEvent(e)
+        self.events = [e for e in self.events if not e.hasOneOfTags(tuple(tags))]
 
     def removeEvent(self, event):
         """remove given event
         Args:
             event: the Event to be added
         """
-        idxToRemove = []
-        idx = 0
-        for e in self.events:
-            if event == e:
-                idxToRemove += [idx]
-            idx += 1
-
-        for i in idxToRemove:
-            del self.events[i]
+        self.events = [e for e in self.events if not event == e]
 
     def removeOverlapped(self, usePitchValues=False):
         """
-- 
2.43.0


From c5a401d5d35f547996bc5e4db18e2ca9328f1b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 06/32] fix: alignOnGrid cuts events having one of the
 repeatible tags

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 42f7038..95a3a99 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -344,7 +344,7 @@ class Pattern(object):
         """
         newEvents = []
         for e in self.events:
-            if e.isTag(repeatibleTags):
+            if e.hasOneOfTags(repeatibleTags):
                 evToAdd = e.cutInSteps(stepSize)
             else:
                 evToAdd = [e]
-- 
2.43.0


From 4ac9ef6deb4607bc575000902ecae05240260a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 07/32] fix: removeOverlapped drops an event whose start is
 taken by a later one

---
 gsapi/gspattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 95a3a99..6e96971 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -955,6 +955,7 @@ class Pattern(object):
                             overLappedEv += [ee]
                         else:
                             gspatternLog.info("strict overlapping of start times %s with %s" % (e, ee))
+                            break
 
                 if ee.startTime > (e.startTime + e.duration):
                     break
-- 
2.43.0


From 3aea1c623353828424b8f21cf43e89a74500e8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 08/32] fix: fillWithPreviousEvent considers the onsets in time
 order

---
 gsapi/gspattern.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 6e96971..c05c498 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -429,6 +429,7 @@ class Pattern(object):
         for e in self.events:
             if e.startTime not in onsets:
                 onsets.append(e.startTime)
+        onsets.sort()
         onsets.append(self.duration)
 
         for e in self.events:
-- 
2.43.0


From e34b1f16840c16214bcf073496d86dbebe370411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 09/32] fix: applyLegato acts on the events of the pattern, by
 pitch or by tag

---
 gsapi/gspattern.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index c05c498..465a3c4 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -385,11 +385,12 @@ class Pattern(object):
                 myPattern[-1].duration += diff
         if usePitchValues:
             for p in self.getAllPitches():
-                voice = self.getPatternWithPitch(p)
+                voice = self.getPatternWithPitch(p, makeCopy=False)
+                _perVoiceLegato(voice)
+        else:
+            for t in self.getAllTags():
+                voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=True, makeCopy=False)
                 _perVoiceLegato(voice)
-        for t in self.getAllTags():
-            voice = self.getPatternWithTags(tagToLookFor=t, exactSearch=False, makeCopy=False)
-            _perVoiceLegato(voice)
 
     def copy(self):
         """
-- 
2.43.0


From 0a2749117eaf01fd26638d3ea649d63dae901108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 10/32] fix: fillWithSilences fills per tag, not per substring
 of a tag

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 465a3c4..9df4f1b 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -493,7 +493,7 @@ class Pattern(object):
             for t in self.getAllTags():
                 allEvents += _fillListWithSilence(
                     self.getPatternWithTags(tagToLookFor=t,
-                                            exactSearch=False,
+                                            exactSearch=True,
                                             makeCopy=False),
                     silenceTag, silencePitch)
             self.events = allEvents
-- 
2.43.0


From 2171e2b4ef0ed49092c072a34b31c0e257aad59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 11/32] fix: transpose sets a hashable tag

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 9df4f1b..6f760d5 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1172,7 +1172,7 @@ class Pattern(object):
         """
         for e in self.events:
             e.pitch += interval
-            e.tag = [gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames)]
+            e.tag = (gsutil.pitch2name(e.pitch, gsdefs.defaultPitchNames),)
 
 
 def patternToList(myPattern):
-- 
2.43.0


From 3264e2eba79b889c022e95c75fb053507965ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 12/32] fix: splitInEqualLengthPatterns accepts a pattern
 without name

---
 gsapi/gspattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index 6f760d5..c395dca 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -1072,7 +1072,7 @@ class Pattern(object):
                 patterns[numPattern].startTime = p * desiredLength
                 patterns[numPattern].duration = desiredLength
                 patterns[
-                    numPattern].name = patternToSlice.name + "_" + numPattern
+                    numPattern].name = (patternToSlice.name or "") + "_" + numPattern
             newEv = e if not makeCopy else e.copy()
 
             if newEv.startTime + newEv.duration > (p + 1) * desiredLength:
-- 
2.43.0


From d1bfdb5ea07250b739ff37e47ab88b5df6c513cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:01 +0000
Subject: [PATCH 13/32] fix: toJSONDict writes tag indexes that fromJSONDict
 reads

---
 gsapi/gspattern.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gsapi/gspattern.py b/gsapi/gspattern.py
index c395dca..2639d91 100644
--- a/gsapi/gspattern.py
+++ b/gsapi/gspattern.py
@@ -998,7 +998,14 @@ class Pattern(object):
         res['viewpoints'] = {k: v.toJSONDict(useTagIndexing) for k, v in
                              self.viewpoints.items()}
         if useTagIndexing:
-            allTags = self.getAllTags()
+            def tagsOf(e):
+                return e.tag if isinstance(e.tag, tuple) else (e.tag,)
+
+            allTags = []
+            for e in self.events:
+                for t in tagsOf(e):
+                    if t not in allTags:
+                        allTags += [t]
             res['eventTags'] = allTags
 
             def findIdxforTags(tags, allTags):
@@ -1009,7 +1016,7 @@ class Pattern(object):
                                       'duration': e.duration,
                                       'pitch':    e.pitch,
                                       'velocity': e.velocity,
-                                      'tagIdx':   findIdxforTags(e.tag,
+                                      'tagsIdx':  findIdxforTags(tagsOf(e),
                                                                  allTags)
                                       }]
         else:
-- 
2.43.0


From 90b4ad6707c05b484c5f924dc2e89b3cdd296934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:11 +0000
Subject: [PATCH 14/32] fix: channel aftertouch value is the first and only
 data byte

---
 gsapi/midiio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index db00dad..7011c08 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -494,10 +494,10 @@ class ChannelAfterTouchEvent(Event):
     name = 'Channel After Touch'
 
     def set_value(self, val):
-        self.data[1] = val
+        self.data[0] = val
 
     def get_value(self):
-        return self.data[1]
+        return self.data[0]
 
     value = property(get_value, set_value)
 
-- 
2.43.0


From 8d5d45515331ee2977f90c7ee7ded401cc2fd170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 15/32] fix: time signature denominators are stored as the
 exact power of two

---
 gsapi/midiio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index 7011c08..d699b7a 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -678,7 +678,7 @@ class TimeSignatureEvent(MetaEvent):
         return 2 ** self.data[1]
 
     def set_denominator(self, val):
-        self.data[1] = int(math.log(val, 2))
+        self.data[1] = int(round(math.log(val, 2)))
 
     denominator = property(get_denominator, set_denominator)
 
-- 
2.43.0


From 9989abddf47f5d491b038550b31d661de5e797bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 16/32] fix: normalising a note map leaves the lists of the
 caller alone

---
 gsapi/gsio.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index c59698e..b4b3113 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -89,9 +89,7 @@ def __tagFromMidiNote(_noteToTag):
         else:
             if not isinstance(noteToTag[n], list):
                 noteToTag[n] = [noteToTag[n]]
-            for i in range(len(noteToTag[n])):
-                if isinstance(noteToTag[n][i], int):
-                    noteToTag[n][i] = (noteToTag[n][i], "*")
+            noteToTag[n] = [(r, "*") if isinstance(r, int) else r for r in noteToTag[n]]
     return noteToTag
 
 
-- 
2.43.0


From f96aeb6a5355683074415c651c808371acec36da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 17/32] fix: tags of a track name are collected as a tuple

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index b4b3113..3609560 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -111,7 +111,7 @@ def __tagFromTrackName(name, noteMapping):
     res = tuple()
     for l in noteMapping:
         if l in name:
-            res += [l]
+            res += (l,)
     return res
 
 
-- 
2.43.0


From 4da4b36e764ffd00e3c32c1555ccab114eee994e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 18/32] fix: a MIDI file is closed after writing

---
 gsapi/midiio.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/midiio.py b/gsapi/midiio.py
index d699b7a..a95dd49 100644
--- a/gsapi/midiio.py
+++ b/gsapi/midiio.py
@@ -19,7 +19,8 @@ if sys.version_info < (3,):
 
     def write_midifile(midifile, pattern):
         if type(midifile) in (str, unicode):
-            midifile = open(midifile, 'wb')
+            with open(midifile, 'wb') as opened:
+                return write_midifile(opened, pattern)
         writer = FileWriter()
         return writer.write(midifile, pattern)
 
@@ -37,7 +38,8 @@ else:
 
     def write_midifile(midifile, pattern):
         if type(midifile) is str:
-            midifile = open(midifile, 'wb')
+            with open(midifile, 'wb') as opened:
+                return write_midifile(opened, pattern)
         writer = FileWriter()
         return writer.write(midifile, pattern)
 
-- 
2.43.0


From 5cfc4b3080f153f9bb87c873b92bb93fb6773c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 19/32] fix: a tag with several matching rules is given once

---
 gsapi/gsio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 3609560..5f9af9f 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -102,6 +102,7 @@ def __tagsFromMidiNoteAndChannel(pitch, channel, noteMapping):
         for le in noteMapping[l]:
             if (le[0] in {"*", pitch}) and (le[1] in {"*", channel}):
                 res += (l,)
+                break
     if len(res) == 1:
         return res[0]
     return res
-- 
2.43.0


From cab729aaf8d8d91fb81cee569b666ace7f3f54f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 20/32] fix: export notes in start order, so that a note-off
 precedes the next note-on

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 5f9af9f..ab782b5 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -339,7 +339,7 @@ def toMidiFile(myPattern, midiMap=gsdefs.defaultPitchNames, folderPath="./output
     # Append the track to the pattern
     pattern.append(track)
     beatToTick = pattern.resolution
-    for e in myPattern.events:
+    for e in sorted(myPattern.events, key=lambda e: e.startTime):
         startTick = int(beatToTick * e.startTime)
         endTick = int(beatToTick * e.endTime())
         # pitch = e.pitch
-- 
2.43.0


From 43245bbc45a852af86d47f03894d8a730a5fb7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:31 +0000
Subject: [PATCH 21/32] fix: fromMidiCollection works with its default map and
 passes the tracks on

---
 gsapi/gsio.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index ab782b5..5e8722b 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -264,7 +264,7 @@ def fromMidiFile(midiFile, noteToTagMap="pitchName", tracksToGet=None, tagFromTr
                             checkForOverlapped=checkForOverlapped)
 
 
-def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, tracksToGet=None,
+def fromMidiCollection(midiGlobPath, noteToTagMap="pitchName", tracksToGet=None,
                        tagFromTrackName=False, filterOutNotMapped=True, desiredLength=0):
     """
     Loads a collection of MIDI Files
@@ -295,7 +295,8 @@ def fromMidiCollection(midiGlobPath, noteToTagMap=gsdefs.defaultPitchNames, trac
     for f in glob.glob(midiGlobPath):
         name = os.path.splitext(os.path.basename(f))[0]
         gsioLog.info("getting " + name)
-        p = fromMidiFile(f, _noteToTagMap, tagFromTrackName=tagFromTrackName, filterOutNotMapped=filterOutNotMapped)
+        p = fromMidiFile(f, _noteToTagMap, tracksToGet=tracksToGet, tagFromTrackName=tagFromTrackName,
+                         filterOutNotMapped=filterOutNotMapped)
         if desiredLength > 0:
             res += p.splitInEqualLengthPatterns(desiredLength, makeCopy=False)
         else:
-- 
2.43.0


From 48467dfdf6a85e11f4f91fb0aeb73664c1032121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:31 +0000
Subject: [PATCH 22/32] fix: an empty suffix strips nothing

---
 gsapi/gsutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index 25990e3..11d6ffa 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -52,7 +52,7 @@ def strip_suffix(filename, suffix=None):
         Filename or string without suffix.
 
     """
-    if suffix is not None and filename.endswith(suffix):
+    if suffix and filename.endswith(suffix):
         return filename[:-len(suffix)]
     return filename
 
-- 
2.43.0


From 8d541e8ccaa4c13579172fd147bc1b2bee64351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 23/32] fix: accidentals are compared by value, not identity

---
 gsapi/gsutil.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gsapi/gsutil.py b/gsapi/gsutil.py
index 11d6ffa..408ccb2 100644
--- a/gsapi/gsutil.py
+++ b/gsapi/gsutil.py
@@ -228,9 +228,9 @@ def makeChord(root, chord_structure):
 
 
 def pc2note(pitch_class, alt="#"):
-    if alt is "#":
+    if alt == "#":
         base40 = [2, 3, 8, 9, 14, 19, 20, 25, 26, 31, 32, 37]
-    elif alt is "b":
+    elif alt == "b":
         base40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]
     else:
         raise Exception("alt should be either '#' or 'b'")
@@ -238,9 +238,9 @@ def pc2note(pitch_class, alt="#"):
 
 
 def pc2base40(pitch_class, alt="#"):
-    if alt is "#":
+    if alt == "#":
         base40 = [2, 3, 8, 9, 14, 19, 20, 25, 26, 31, 32, 37]
-    elif alt is "b":
+    elif alt == "b":
         base40 = [2, 7, 8, 13, 14, 19, 24, 25, 30, 31, 36, 37]
     else:
         raise Exception("alt should be either '#' or 'b'")
-- 
2.43.0


From 3a6264d44688bd42b0ddf7c5b6bd8e1d6cffa39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:39 +0000
Subject: [PATCH 24/32] fix: generatePattern finds the pattern classes it uses

---
 gsapi/gsstyles.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index e9b32d2..322bd62 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -4,6 +4,7 @@ import copy
 import logging
 import random
 
+from . import gspattern
 from .gspattern import Pattern
 
 markovLog = logging.getLogger('gsapi.styles.markov_style')
-- 
2.43.0


From 03b99253a1b88ad27a23d21b0ea65c3a61bb3666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 25/32] fix: the sampled choice is the one whose interval holds
 the random number

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 322bd62..7dbcc06 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -423,7 +423,7 @@ class PatternMarkov(object):
                 r = random.random()
                 for i in range(1, len(bins)):
                     if bins[i - 1] <= r and bins[i] > r:
-                        chosenIdx = i - 1
+                        chosenIdx = i
                         break
 
             return list(d.keys())[chosenIdx]
-- 
2.43.0


From c0b50f1586d30c95ea196c22334a15a854db504b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:43 +0000
Subject: [PATCH 26/32] fix: equal event sets give equal table entries,
 whatever the order they were met in

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 7dbcc06..2387815 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -500,7 +500,7 @@ class PatternMarkov(object):
                 curL += [e.tag]
 
             # set allow for having consistent ordering, and remove step-wise overlapping events
-            res += (tuple(set(curL)),)
+            res += (tuple(sorted(set(curL))),)
         return res
 
     def formatPattern(self, p):
-- 
2.43.0


From b0bc6090642c944baefb48a61ad814312d333115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 27/32] fix: density changes keep track of the steps, so that
 density one is the input again

---
 gsapi/gstransformers.py | 115 +++++++++++-----------------------------
 1 file changed, 32 insertions(+), 83 deletions(-)

diff --git a/gsapi/gstransformers.py b/gsapi/gstransformers.py
index 484e9df..056c3a5 100644
--- a/gsapi/gstransformers.py
+++ b/gsapi/gstransformers.py
@@ -90,7 +90,7 @@ class AgnosticDensity(BaseTransformer):
             self.buildDensityMap(paramDict['inputPattern'])  # TODO: Faltaba el self.
 
     def transformPattern(self, pattern, paramDict):
-        if pattern is not None and pattern != self.originPattern:
+        if pattern is not None and (pattern != self.originPattern or pattern.duration != self.originDuration):
             self.buildDensityMap(pattern)
         if self.originPattern is None:
             return
@@ -103,96 +103,45 @@ class AgnosticDensity(BaseTransformer):
     def updateNormalizedDensities(self, normalizedDict):
         for key, value in normalizedDict.items():
             if key in self.normalizedDensities:
-                originDensity = self.normalizedDensities[key]
-                # if we cross density one, reset to one then do the subsequent calculations
-                if (value < 1 < originDensity) or (value > 1 > originDensity):
-                    # print "reset densities"
-                    self.resetDensities()
-
-                diffNormalized = value - self.normalizedDensities[key]
-                if diffNormalized == 0:
-                    continue
-
-                # here we are sure to not need to crossdensity one (and have to do both increment styles)
-                if originDensity >= 1 and value >= 1:
-                    step = 1.0 / (self.numSteps - self.originDensities[key])
-                    number = originDensity
-                    value = max(1, min(value, 2)) - step
-                    if diffNormalized > step:
-
-                        while number < value:
-                            self.addEventForTag(key, number)
-                            number += step
-                    if diffNormalized < -step:
-                        while number > value:
-                            self.removeEventForTag(key, number)
-                            number -= step
-                    self.normalizedDensities[key] = 1.0 + int((value - 1.0) / step) * 1.0 * step
-
-                if originDensity <= 1 and value < 1:
-                    step = 1.0 / (self.originDensities[key])
-                    number = originDensity
-                    value = max(0, min(value, 1)) + step
-                    if diffNormalized > step:
-                        while number < value:
-                            self.addEventForTag(key, number)
-                            number += step
-                    if diffNormalized < -step:
-                        while number > value:
-                            self.removeEventForTag(key, number)
-                            number -= step
-                    self.normalizedDensities[key] = int(value / step) * 1.0 * step
+                value = max(0, min(value, 2))
+                state = self.currentState[key]
+                numOrigin = len(state['notes']) + len(state['removedNotes'])
+                numSilent = len(state['silences']) + len(state['addedNotes'])
+                numRemoved = int(round(max(0, 1 - value) * numOrigin))
+                numAdded = int(round(max(0, value - 1) * numSilent))
+                # if we cross density one, go back to the origin pattern first
+                while len(state['addedNotes']) > numAdded:
+                    self.removeEventForTag(key, 'addedNotes', 'silences')
+                while len(state['removedNotes']) > numRemoved:
+                    self.addEventForTag(key, 'removedNotes', 'notes')
+                while len(state['addedNotes']) < numAdded:
+                    self.addEventForTag(key, 'silences', 'addedNotes')
+                while len(state['removedNotes']) < numRemoved:
+                    self.removeEventForTag(key, 'notes', 'removedNotes')
+                self.normalizedDensities[key] = value
         self.currentPattern.reorderEvents()
 
-    def addEventForTag(self, tag, targetDensity):
-
-        availableIdx = self.currentState[tag]['silences']
-        # we need to go toward origin pattern if adding while having lower density
-        if targetDensity < 1:
-            availableIdx = self.currentState[tag]['removedNotes']
-
+    def moveStepForTag(self, tag, origin, destination):
+        availableIdx = self.currentState[tag][origin]
         idx = 0
         if self.mode == 'hysteresis':
             idx = random.randint(0, len(availableIdx) - 1)
-
-        idxToAdd = availableIdx[idx]
-
-        orIdx = self.currentState[tag]['silences'].index(idxToAdd)
-        del self.currentState[tag]['silences'][orIdx]
-        if targetDensity < 1:
-            del self.currentState[tag]['removedNotes'][idx]
-
-        self.currentState[tag]['addedNotes'] += [idxToAdd]
-        tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
-        newEv = tPattern.events[0].copy()
-        newEv.startTime = idxToAdd
+        step = availableIdx.pop(idx)
+        self.currentState[tag][destination].append(step)
+        return step
+
+    def addEventForTag(self, tag, origin, destination):
+        step = self.moveStepForTag(tag, origin, destination)
+        voice = self.originPattern.getPatternWithTags(tag, makeCopy=False)
+        newEv = (voice.getStartingEventsAtTime(step) or voice.events)[0].copy()
+        newEv.startTime = step
         newEv.duration = 1
         self.currentPattern.events += [newEv]
 
-    def removeEventForTag(self, tag, targetDensity):
-
-        availableIdx = self.currentState[tag]['notes']
-
-        # we need to go toward origin pattern if removing while having higher density
-        if targetDensity > 1:
-            availableIdx = self.currentState[tag]['addedNotes']
-
-        idx = 0
-        if self.mode == 'hysteresis':
-            idx = random.randint(0, len(availableIdx) - 1)
-
-        idxToRemove = availableIdx[idx]
-
-        orIdx = self.currentState[tag]['notes'].index(idxToRemove)
-        del self.currentState[tag]['notes'][orIdx]
-        if targetDensity > 1:
-            del self.currentState[tag]['addedNotes'][idx]
-
-        self.currentState[tag]['removedNotes'] += [idxToRemove]
-        tPattern = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
-
-        eventToRemove = tPattern.getStartingEventsAtTime(idxToRemove)[0]
-        self.currentPattern.removeEvent(eventToRemove)
+    def removeEventForTag(self, tag, origin, destination):
+        step = self.moveStepForTag(tag, origin, destination)
+        voice = self.currentPattern.getPatternWithTags(tag, makeCopy=False)
+        self.currentPattern.removeEvent(voice.getStartingEventsAtTime(step)[0])
 
     def createCurrentState(self):
         self.currentState = {}
-- 
2.43.0


From 90994530d9678d50dee0a7bf45371abb35867ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 28/32] fix: the last choice of a distribution can be drawn

---
 gsapi/bassmine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/bassmine.py b/gsapi/bassmine.py
index ccd7c0a..233edb4 100644
--- a/gsapi/bassmine.py
+++ b/gsapi/bassmine.py
@@ -51,7 +51,7 @@ def pdf_sampling(n):  # variable argument list
 
     x = random.random()
     f = 0
-    for i in range(1, len(n)):
+    for i in range(1, len(n) + 1):
         if x < sum(n[0:i]):
             f = i - 1
             break
-- 
2.43.0


From 8b83301e56ca1452374eb1d8c31ae1ec0d0f1047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 29/32] fix: conserve tuples inside tuples when writing JSON
 files

---
 gsapi/gsio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsio.py b/gsapi/gsio.py
index 5e8722b..de15d5a 100644
--- a/gsapi/gsio.py
+++ b/gsapi/gsio.py
@@ -428,7 +428,7 @@ def toJSONFile(myPattern, folderPath, useTagIndexing=True, nameSuffix=None, cons
 
         """
         def checkTuple(self, item):
-            if isinstance(item, tuple): return {'__tuple__': True, 'items': item}
+            if isinstance(item, tuple): return {'__tuple__': True, 'items': [self.checkTuple(e) for e in item]}
             if isinstance(item, list): return [self.checkTuple(e) for e in item]
             if isinstance(item, dict):
                 return {k: self.checkTuple(e) for k, e in item.items()}
-- 
2.43.0


From 36958d9c2357396856ebfbc6ca10525cf3fc71f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 30/32] fix: DatabaseStyle.isBuilt returns its answer

---
 gsapi/gsstyles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 2387815..551e020 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -170,7 +170,7 @@ class DatabaseStyle(BaseStyle):
             self.patternList += [p]
 
     def isBuilt(self):
-        self.patternList != []
+        return self.patternList != []
 
 
 class MarkovStyle(BaseStyle):
-- 
2.43.0


From 288b6e91d7e75466019c1a1f3a96a06c0f6d7368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 31/32] fix: styles are pickled to and from the file whose path
 is given

---
 gsapi/gsstyles.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index 551e020..dd84c78 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -106,7 +106,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        pickle.dump(self, filePath)
+        with open(filePath, 'wb') as f:
+            pickle.dump(self, f)
 
     def loadFromPickle(self, filePath):
         import sys
@@ -114,7 +115,8 @@ class BaseStyle(object):
             import pickle
         else:
             import cPickle as pickle
-        self = pickle.load(filePath)
+        with open(filePath, 'rb') as f:
+            self.__dict__.update(pickle.load(f).__dict__)
 
 
 class DatabaseStyle(BaseStyle):
-- 
2.43.0


From 37e8b3fba94f7d01590e30f6c42da8ceb9596080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:59 +0000
Subject: [PATCH 32/32] fix: the state of a Markov model can be written as JSON
 and read back

---
 gsapi/gsstyles.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gsapi/gsstyles.py b/gsapi/gsstyles.py
index dd84c78..99c6d06 100644
--- a/gsapi/gsstyles.py
+++ b/gsapi/gsstyles.py
@@ -526,7 +526,10 @@ class PatternMarkov(object):
     def getInternalState(self):
         """utility function to save current state
         """
-        res = {"transitionTable": self.transitionTable, "order": self.order,
+        # states are tuples of tags, which can't be keys of a JSON dict
+        table = [[[context, list(row.items())] for context, row in t.items()]
+                 for t in self.transitionTable]
+        res = {"transitionTable": table, "order": self.order,
                "numSteps":        self.numSteps,
                "loopDuration":    self.loopDuration}
         return res
@@ -535,7 +538,12 @@ class PatternMarkov(object):
         """
         Utility function to load the current state.
         """
-        self.transitionTable = state["transitionTable"]
+        def _toTuple(s):
+            return tuple(_toTuple(e) for e in s) if isinstance(s, (list, tuple)) else s
+
+        self.transitionTable = [{_toTuple(context): {_toTuple(evt): p for evt, p in row}
+                                 for context, row in t}
+                                for t in state["transitionTable"]]
         self.order = state["order"]
         self.numSteps = state["numSteps"]
         self.loopDuration = state["loopDuration"]
-- 
2.43.0

