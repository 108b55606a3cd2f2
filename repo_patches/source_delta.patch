From f32e1382829d7da77c8d20fd7fb74e6bf837a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 01/42] fix: list candidate objects of a pointing in a
 reproducible order

PixelDict.get_designations returned a set of strings, whose iteration order
changes with the interpreter's string hash seed. The ephemeris rows, and with
them the random draws of a seeded run, changed from one process to the next.
---
 src/sorcha/ephemeris/pixel_dict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 157eec8..c389bec 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -379,4 +379,6 @@ class PixelDict:
         for pix in pixels:
             desigs.update(self.pixel_dict[pix])
 
-        return desigs
+        # a set of strings has no reproducible order: sort, so that the order of
+        # the ephemeris rows does not change from one interpreter to the next
+        return sorted(desigs)
-- 
2.43.0


From 8c091fbdbc68d07fd94039684fd15303019f4ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:19 +0000
Subject: [PATCH 02/42] fix: append a chunk that does not fit the HDF5 table
 laid out by an earlier one

HDFStore.append fixes the string width and column types of the table with the
first chunk. A later chunk with a longer ObjID (or a float where the first chunk
had integers) made the run end with a ValueError part way through.
---
 src/sorcha/modules/PPOutput.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index ac7ed6a..b548794 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -67,9 +67,16 @@ def PPOutWriteHDF5(pp_results, outf, keyname="sorcha_results"):
     # as long as the user isn't going to use PyTables to access the data this doesn't matter
     warnings.filterwarnings("ignore", category=NaturalNameWarning)
 
-    store = pd.HDFStore(outf)
-    store.append(keyname, pp_results, format="t", data_columns=True)
-    store.close()
+    with pd.HDFStore(outf) as store:
+        try:
+            store.append(keyname, pp_results, format="t", data_columns=True)
+        except ValueError:
+            # The layout of the table was fixed by the chunk written first: a longer
+            # ObjID or a column with a wider type does not fit. Lay the table out anew.
+            if keyname not in store or set(store[keyname].columns) != set(pp_results.columns):
+                raise
+            pp_results = pd.concat([store[keyname], pp_results])
+            store.append(keyname, pp_results, format="t", data_columns=True, append=False)
 
     return
 
-- 
2.43.0


From fa758a9cf2501ea0668cf193287aa3d1dee46ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 03/42] fix: read ObjIDs as text whatever rows share the chunk

pandas inferred the type of the ObjID column anew for every chunk and file, so
'0042' became '42' (and '5e3' became '5000.0') where all rows of a chunk looked
like numbers and stayed as they were elsewhere: objects were silently lost or
the run ended with a mismatch, depending on the chunk size.
---
 src/sorcha/ephemeris/simulation_driver.py | 4 ++--
 src/sorcha/readers/CSVReader.py           | 6 ++++++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index 4615485..324fca7 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from collections import defaultdict
 from csv import writer
 from io import StringIO
 
@@ -157,7 +156,8 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
         "Obs_Sun_vz_km_s",
         "phase_deg",
     )
-    column_types = defaultdict(ObjID=str, FieldID=str).setdefault(float)
+    # ObjIDs are names, even where they look like numbers
+    column_types = {"ObjID": str}
     in_memory_csv.writerow(column_names)
 
     # t_picket is the last time at which the sky positions of all the objects
diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index 9e633a0..f14ecdc 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -201,6 +201,7 @@ class CSVDataReader(ObjectDataReader):
                 sep="\\s+",
                 skiprows=skip_rows,
                 nrows=block_size,
+                dtype={"ObjID": str},
             )
         else:
             res_df = pd.read_csv(
@@ -208,6 +209,7 @@ class CSVDataReader(ObjectDataReader):
                 delimiter=",",
                 skiprows=skip_rows,
                 nrows=block_size,
+                dtype={"ObjID": str},
             )
 
         return res_df
@@ -223,6 +225,7 @@ class CSVDataReader(ObjectDataReader):
                 sep="\\s+",
                 usecols=["ObjID"],
                 header=self.header_row,
+                dtype={"ObjID": str},
             )
         else:
             self.obj_id_table = pd.read_csv(
@@ -230,6 +233,7 @@ class CSVDataReader(ObjectDataReader):
                 delimiter=",",
                 usecols=["ObjID"],
                 header=self.header_row,
+                dtype={"ObjID": str},
             )
 
         self.obj_id_table = self._validate_object_id_column(self.obj_id_table)
@@ -264,12 +268,14 @@ class CSVDataReader(ObjectDataReader):
                     self.filename,
                     sep="\\s+",
                     skiprows=(lambda x: skipped_row[x]),
+                    dtype={"ObjID": str},
                 )
             else:
                 res_df = pd.read_csv(
                     self.filename,
                     delimiter=",",
                     skiprows=(lambda x: skipped_row[x]),
+                    dtype={"ObjID": str},
                 )
         except IndexError as current_exc:
             # Check if there is a more understandable error we can raise.
-- 
2.43.0


From 3335a10e3f4cdd099b7d12d0328e2870e9f995e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 04/42] fix: cull faint objects where an observing filter has
 no pointings

With brute_force off the run ended with a KeyError if one of the observing
filters did not occur in the pointing database.
---
 src/sorcha/modules/PPFaintObjectCullingFilter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPFaintObjectCullingFilter.py b/src/sorcha/modules/PPFaintObjectCullingFilter.py
index b1fdb61..f95bbb9 100644
--- a/src/sorcha/modules/PPFaintObjectCullingFilter.py
+++ b/src/sorcha/modules/PPFaintObjectCullingFilter.py
@@ -91,7 +91,8 @@ def PPFaintObjectCullingFilter(
             )
 
         # 2 is a fairly arbitrary value added to give a threshold
-        drop_df[filt] = app_mag > max_five_sigma[filt] + 2
+        # (a filter without a single pointing detects nothing)
+        drop_df[filt] = app_mag > max_five_sigma.get(filt, -np.inf) + 2
 
     # if the object's apparent magnitude fulfils the condition in the above loop for all filters, drop it
     objects_to_drop = drop_df.loc[drop_df[observing_filters].all(axis=1), "ObjID"].tolist()
-- 
2.43.0


From e55e8a2ba886073f629767ab0539d28991bae40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:02 +0000
Subject: [PATCH 05/42] fix: accept a chunk in which all absolute magnitudes
 are whole numbers

The H column of such a chunk is of integer type, and adding fractional colour
offsets in place raises a TypeError: whether a catalogue could be processed
depended on the chunk size.
---
 src/sorcha/modules/PPApplyColourOffsets.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/modules/PPApplyColourOffsets.py b/src/sorcha/modules/PPApplyColourOffsets.py
index 2d87a94..48a1905 100644
--- a/src/sorcha/modules/PPApplyColourOffsets.py
+++ b/src/sorcha/modules/PPApplyColourOffsets.py
@@ -55,6 +55,9 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
     # save original H column: useful for other functions.
     observations["H_original"] = observations[H_col].copy()
 
+    # whole-number absolute magnitudes are read as integers: make room for the offsets
+    observations[H_col] = observations[H_col].astype(float)
+
     # create a zero-offset column for mainfilter-mainfilter
     observations[mainfilter + "-" + mainfilter] = np.zeros(len(observations))
 
-- 
2.43.0


From 7526aaf806f6736cb6f7c78a968477d67b2f8868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:07 +0000
Subject: [PATCH 06/42] fix: fail when an HDF5 file cannot be read back after
 writing it

The HDF5 library writes most of a file when it is closed and reports no
error then: on a full disk a run used to end successfully with an
unreadable output file.
---
 src/sorcha/modules/PPOutput.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index b548794..b1008cf 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -78,6 +78,22 @@ def PPOutWriteHDF5(pp_results, outf, keyname="sorcha_results"):
             pp_results = pd.concat([store[keyname], pp_results])
             store.append(keyname, pp_results, format="t", data_columns=True, append=False)
 
+    if pp_results.empty:  # nothing was stored
+        return
+
+    # Closing the file is when most of it is written, and the HDF5 library reports no
+    # errors (e.g. a full disk) at that point: make sure that the rows can be read back.
+    with pd.HDFStore(outf, mode="r") as store:
+        written = store.select(keyname, start=store.get_storer(keyname).nrows - len(pp_results))
+    for column in pp_results.columns:
+        rows, wanted = written[column], pp_results[column]
+        if pd.api.types.is_numeric_dtype(rows):
+            same = np.array_equal(rows.astype(float), wanted.astype(float), equal_nan=True)
+        else:
+            same = np.array_equal(rows.astype(str), wanted.astype(str))
+        if not same:
+            raise OSError(f"writing {outf} failed: column {column} reads back differently")
+
     return
 
 
-- 
2.43.0


From 144374280783c7c756909fb1f08f27c414b5c8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 07/42] fix: make files of the shared cache appear whole

meta_kernel.txt and ObsCodes.json were written in place: a concurrent run, or
any later one after an interruption, could find half a file and fail, or load
fewer SPICE kernels than listed.
---
 src/sorcha/ephemeris/simulation_data_files.py | 14 ++++++++++
 src/sorcha/ephemeris/simulation_parsing.py    |  3 +-
 src/sorcha/utilities/fileAccessUtils.py       | 28 +++++++++++++++++++
 src/sorcha/utilities/generate_meta_kernel.py  |  4 ++-
 .../retrieve_ephemeris_data_files.py          |  4 +--
 5 files changed, 48 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_data_files.py b/src/sorcha/ephemeris/simulation_data_files.py
index 81c6792..3c67e00 100644
--- a/src/sorcha/ephemeris/simulation_data_files.py
+++ b/src/sorcha/ephemeris/simulation_data_files.py
@@ -1,5 +1,8 @@
+import os
 import pooch
 
+from sorcha.utilities.fileAccessUtils import replacing
+
 
 def make_retriever(auxconfigs, directory_path: str = None) -> pooch.Pooch:
     """Helper function that will create a Pooch object to track and retrieve files.
@@ -28,3 +31,14 @@ def make_retriever(auxconfigs, directory_path: str = None) -> pooch.Pooch:
         registry=auxconfigs.registry,
         retry_if_failed=25,
     )
+
+
+class Decompress(pooch.Decompress):
+    """Pooch's `Decompress` processor, with the decompressed file appearing at once."""
+
+    def __call__(self, fname, action, pup):
+        decompressed = os.path.join(os.path.dirname(fname), self.name)
+        if action in ("update", "download") or not os.path.exists(decompressed):
+            with replacing(decompressed) as partial:
+                pooch.Decompress(self.method, os.path.basename(partial))(fname, action, pup)
+        return decompressed
diff --git a/src/sorcha/ephemeris/simulation_parsing.py b/src/sorcha/ephemeris/simulation_parsing.py
index 7407a63..6fb6e6f 100644
--- a/src/sorcha/ephemeris/simulation_parsing.py
+++ b/src/sorcha/ephemeris/simulation_parsing.py
@@ -2,10 +2,9 @@ import json
 import os
 import numpy as np
 import spiceypy as spice
-from pooch import Decompress
 from sorcha.ephemeris.simulation_constants import RADIUS_EARTH_KM
 from sorcha.ephemeris.simulation_geometry import ecliptic_to_equatorial, equatorial_to_ecliptic
-from sorcha.ephemeris.simulation_data_files import make_retriever
+from sorcha.ephemeris.simulation_data_files import Decompress, make_retriever
 from sorcha.ephemeris.orbit_conversion_utilities import universal_cartesian, universal_cometary
 
 
diff --git a/src/sorcha/utilities/fileAccessUtils.py b/src/sorcha/utilities/fileAccessUtils.py
index 8336791..df5fc19 100755
--- a/src/sorcha/utilities/fileAccessUtils.py
+++ b/src/sorcha/utilities/fileAccessUtils.py
@@ -1,6 +1,8 @@
+import contextlib
 import logging
 import os
 import sys
+import uuid
 
 
 def FindFileOrExit(arg_fn, argname):
@@ -56,3 +58,29 @@ def FindDirectoryOrExit(arg_fn, argname):
     else:
         pplogger.error("ERROR: filepath {} supplied for {} argument does not exist.".format(arg_fn, argname))
         sys.exit("ERROR: filepath {} supplied for {} argument does not exist.".format(arg_fn, argname))
+
+
+@contextlib.contextmanager
+def replacing(path):
+    """Context manager that yields a temporary path next to the given one, which takes its
+    place when the block has succeeded. The cache directory is shared by all runs of a user:
+    no other run, nor one after an interruption, may find a file that is only half there.
+
+    Parameters
+    ----------
+    path : str
+        The path of the file to be written.
+
+    Yields
+    ------
+    : str
+        The path to write to.
+    """
+    partial = f"{path}.{uuid.uuid4().hex}.tmp"
+    try:
+        yield partial
+        os.replace(partial, path)
+    except BaseException:
+        with contextlib.suppress(FileNotFoundError):
+            os.remove(partial)
+        raise
diff --git a/src/sorcha/utilities/generate_meta_kernel.py b/src/sorcha/utilities/generate_meta_kernel.py
index 4412d9b..c8d7865 100644
--- a/src/sorcha/utilities/generate_meta_kernel.py
+++ b/src/sorcha/utilities/generate_meta_kernel.py
@@ -1,6 +1,8 @@
 import os
 import pooch
 
+from sorcha.utilities.fileAccessUtils import replacing
+
 """
     An example output from running `build_meta_kernel_file` might look like
     the following:
@@ -65,7 +67,7 @@ def build_meta_kernel_file(auxconfigs, retriever: pooch.Pooch) -> None:
     abspath = _split_kernel_path_str(str(retriever.abspath))
 
     # build a meta_kernel.txt file
-    with open(meta_kernel_file_path, "w") as meta_file:
+    with replacing(meta_kernel_file_path) as partial, open(partial, "w") as meta_file:
         meta_file.write("\\begindata\n\n")
         meta_file.write(f"PATH_VALUES = ('{abspath}')\n\n")
         meta_file.write("PATH_SYMBOLS = ('A')\n\n")
diff --git a/src/sorcha/utilities/retrieve_ephemeris_data_files.py b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
index 0f2377a..c487d56 100644
--- a/src/sorcha/utilities/retrieve_ephemeris_data_files.py
+++ b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
@@ -4,7 +4,7 @@ import os
 import pooch
 
 from functools import partial
-from sorcha.ephemeris.simulation_data_files import make_retriever
+from sorcha.ephemeris.simulation_data_files import Decompress, make_retriever
 from sorcha.utilities.generate_meta_kernel import build_meta_kernel_file
 
 
@@ -28,7 +28,7 @@ def _decompress(fname, action, pup):  # pragma: no cover
     """
     known_extentions = [".gz", ".bz2", ".xz"]
     if os.path.splitext(fname)[-1] in known_extentions:
-        pooch.Decompress(method="auto", name=os.path.splitext(fname)[0]).__call__(fname, action, pup)
+        Decompress(method="auto", name=os.path.splitext(fname)[0]).__call__(fname, action, pup)
 
 
 def _remove_files(auxconfigs, retriever: pooch.Pooch) -> None:  # pragma: no cover
-- 
2.43.0


From e935ef96e47059339b6e41258d63e83544f03fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:10 +0000
Subject: [PATCH 08/42] fix: -f removes every stale output of its own run and
 of no other

Only the first file that matched was removed, so that e.g. results of another
output format stayed or an old table was appended to; characters with a meaning
to glob in the output path made existing files invisible (and then appended to)
or matched files of others, and stem.* reached the outputs of stem 'stem.1'.
---
 src/sorcha/utilities/sorchaCommandLineParser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index 9f476e9..dce5e19 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -17,16 +17,22 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
     ----------
     filepath : string
         The full file path to a given file. i.e. /home/data/output.csv
+        The extension can be ".*" to stand for any extension.
     force_remove : boolean
         Whether to remove the file if it exists.
     pplogger : Logger
         Used to log the output.
     """
-    file_exists = glob.glob(filepath)
+    # Only the extension is a pattern, and it does not reach over a further dot:
+    # the outputs of stem "run.1" are none of the business of stem "run".
+    stem, extension = os.path.splitext(filepath)
+    candidates = glob.glob(glob.escape(stem) + extension)
+    file_exists = [f for f in candidates if os.path.splitext(f)[0] == stem]
 
     if file_exists and force_remove:
         pplogger.info(f"Existing file found at {filepath}. -f flag set: deleting existing file.")
-        os.remove(file_exists[0])
+        for existing in file_exists:
+            os.remove(existing)
     elif file_exists and not force_remove:
         pplogger.error(
             f"ERROR: existing file found at output location {filepath}. Set -f flag to overwrite this file."
-- 
2.43.0


From 14cf6d701dabcd03c4f3ec0dad2aaaa45762dcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:10 +0000
Subject: [PATCH 09/42] fix: refuse to overwrite an input file when -f is given

An output stem equal to the stem of an input in the output directory made -f
delete the input.
---
 src/sorcha/utilities/sorchaCommandLineParser.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index dce5e19..3231d30 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -5,7 +5,7 @@ import glob
 from sorcha.utilities.fileAccessUtils import FindFileOrExit, FindDirectoryOrExit
 
 
-def warn_or_remove_file(filepath, force_remove, pplogger):
+def warn_or_remove_file(filepath, force_remove, pplogger, inputs=()):
     """Given a path to a file(s), first determine if the file exists. If it does not
     exist, pass through.
 
@@ -22,6 +22,8 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
         Whether to remove the file if it exists.
     pplogger : Logger
         Used to log the output.
+    inputs : iterable of strings
+        The paths of input files of this run, which are never removed.
     """
     # Only the extension is a pattern, and it does not reach over a further dot:
     # the outputs of stem "run.1" are none of the business of stem "run".
@@ -30,6 +32,10 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
     file_exists = [f for f in candidates if os.path.splitext(f)[0] == stem]
 
     if file_exists and force_remove:
+        for existing in file_exists:
+            if any(os.path.exists(i) and os.path.samefile(i, existing) for i in inputs):
+                pplogger.error(f"ERROR: output location {filepath} would overwrite the input file {existing}.")
+                sys.exit(f"ERROR: output location {filepath} would overwrite the input file {existing}.")
         pplogger.info(f"Existing file found at {filepath}. -f flag set: deleting existing file.")
         for existing in file_exists:
             os.remove(existing)
@@ -88,12 +94,15 @@ def sorchaCommandLineParser(args):
     else:
         cmd_args_dict["visits_database"] = args.vd
 
+    inputs = [i for i in (args.p, args.ob, args.c, args.pd, args.cp, args.er, args.vd) if i]
+
     # if a value was provided, warn the user about overwriting if the file exists
     if cmd_args_dict["output_ephemeris_file"]:
         warn_or_remove_file(
             os.path.join(cmd_args_dict["outpath"], cmd_args_dict["output_ephemeris_file"] + ".*"),
             args.f,
             pplogger,
+            inputs,
         )
 
     cmd_args_dict["surveyname"] = args.s
@@ -103,7 +112,7 @@ def sorchaCommandLineParser(args):
 
     if cmd_args_dict["stats"] is not None:
         warn_or_remove_file(
-            os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"] + ".csv"), args.f, pplogger
+            os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"] + ".csv"), args.f, pplogger, inputs
         )
 
     cmd_args_dict["ar_data_path"] = args.ar  # default value for args.ar is `None`.
@@ -111,7 +120,7 @@ def sorchaCommandLineParser(args):
         FindDirectoryOrExit(cmd_args_dict["ar_data_path"], "-ar, --ar_data_path")
 
     warn_or_remove_file(
-        os.path.join(cmd_args_dict["outpath"], cmd_args_dict["outfilestem"] + ".*"), args.f, pplogger
+        os.path.join(cmd_args_dict["outpath"], cmd_args_dict["outfilestem"] + ".*"), args.f, pplogger, inputs
     )
 
     # Log all the command line settings to INFO.
-- 
2.43.0


From 9f2caf325c9a5905b97c54aafa021ca67ecf48d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:07 +0000
Subject: [PATCH 10/42] fix: see existing outputs where the output directory
 cannot be listed

glob takes a directory that cannot be read for an empty one, so results were
appended to existing files.
---
 .../utilities/sorchaCommandLineParser.py      | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index 3231d30..394ab88 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -1,7 +1,7 @@
+import contextlib
 import os
 import sys
 import logging
-import glob
 from sorcha.utilities.fileAccessUtils import FindFileOrExit, FindDirectoryOrExit
 
 
@@ -25,17 +25,25 @@ def warn_or_remove_file(filepath, force_remove, pplogger, inputs=()):
     inputs : iterable of strings
         The paths of input files of this run, which are never removed.
     """
-    # Only the extension is a pattern, and it does not reach over a further dot:
-    # the outputs of stem "run.1" are none of the business of stem "run".
-    stem, extension = os.path.splitext(filepath)
-    candidates = glob.glob(glob.escape(stem) + extension)
-    file_exists = [f for f in candidates if os.path.splitext(f)[0] == stem]
+    # The directory is listed here rather than by glob, which takes a directory that cannot be
+    # read for an empty one. Only the extension is a pattern, and it does not reach over a
+    # further dot: the outputs of stem "run.1" are none of the business of stem "run".
+    directory, pattern = os.path.split(filepath)
+    stem, extension = os.path.splitext(pattern)
+    file_exists = []
+    with contextlib.suppress(FileNotFoundError):
+        for name in sorted(os.listdir(directory or os.curdir)):
+            parts = os.path.splitext(name)
+            if parts[0] == stem and (parts[1] == extension or (parts[1] and extension == ".*")):
+                file_exists.append(os.path.join(directory, name))
 
     if file_exists and force_remove:
         for existing in file_exists:
-            if any(os.path.exists(i) and os.path.samefile(i, existing) for i in inputs):
-                pplogger.error(f"ERROR: output location {filepath} would overwrite the input file {existing}.")
-                sys.exit(f"ERROR: output location {filepath} would overwrite the input file {existing}.")
+            for infile in inputs:
+                with contextlib.suppress(FileNotFoundError):
+                    if os.path.samefile(infile, existing):
+                        pplogger.error(f"ERROR: output location {filepath} would overwrite the input {infile}.")
+                        sys.exit(f"ERROR: output location {filepath} would overwrite the input {infile}.")
         pplogger.info(f"Existing file found at {filepath}. -f flag set: deleting existing file.")
         for existing in file_exists:
             os.remove(existing)
-- 
2.43.0


From 83644c68e685d173965f41c0539032ecfc5be947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 11/42] fix: read objects from HDF5 files written in chunks

Rows were selected by index label, which repeats in an ephemeris file that was
appended to chunk by chunk: reading it back returned rows of other objects.
---
 src/sorcha/readers/HDF5Reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/readers/HDF5Reader.py b/src/sorcha/readers/HDF5Reader.py
index 4d51a87..c96a923 100755
--- a/src/sorcha/readers/HDF5Reader.py
+++ b/src/sorcha/readers/HDF5Reader.py
@@ -1,3 +1,4 @@
+import numpy as np
 import pandas as pd
 
 from sorcha.readers.ObjectDataReader import ObjectDataReader
@@ -94,9 +95,11 @@ class HDF5DataReader(ObjectDataReader):
         """
         self._build_id_map()
         row_match = self.obj_id_table["ObjID"].isin(obj_ids)
-        match_inds = self.obj_id_table[row_match].index
-        res_df = pd.read_hdf(self.filename, where="index=match_inds")  # noqa: F841
-        return res_df
+        # Select by position: the index of a file that was written in chunks repeats itself.
+        match_rows = np.flatnonzero(row_match)
+        if len(match_rows) == 0:
+            return pd.read_hdf(self.filename, stop=0)
+        return pd.read_hdf(self.filename, where=match_rows)
 
     def _process_and_validate_input_table(self, input_table, **kwargs):
         """Perform any input-specific processing and validation on the input table.
-- 
2.43.0


From 47bf77d251c27b941d4c96e320398731f9ea12b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 12/42] fix: do not repeat the header of a CSV output when a
 stat call fails

os.path.exists is false also when the question cannot be answered (EIO, ESTALE):
the header line was then written between the rows of two chunks.
---
 src/sorcha/modules/PPOutput.py | 6 +++---
 src/sorcha/modules/PPStats.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index b1008cf..099d599 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -31,9 +31,9 @@ def PPOutWriteCSV(padain, outf, separator=","):
 
     """
 
-    padain = padain.to_csv(
-        path_or_buf=outf, mode="a", header=not os.path.exists(outf), sep=separator, index=False
-    )
+    # Ask the open file whether it is new: os.path.exists also says no when it cannot tell.
+    with open(outf, "a", newline="", encoding="utf-8") as outfile:
+        padain.to_csv(path_or_buf=outfile, header=outfile.tell() == 0, sep=separator, index=False)
 
     return
 
diff --git a/src/sorcha/modules/PPStats.py b/src/sorcha/modules/PPStats.py
index a1efbde..8250870 100644
--- a/src/sorcha/modules/PPStats.py
+++ b/src/sorcha/modules/PPStats.py
@@ -60,7 +60,7 @@ def stats(observations, statsfilename, outpath, sconfigs, return_only=False):
     if return_only:
         return joined_stats
 
-    joined_stats.to_csv(
-        path_or_buf=statsfilepath, mode="a", header=not os.path.exists(statsfilepath), index=True
-    )
+    # Ask the open file whether it is new: os.path.exists also says no when it cannot tell.
+    with open(statsfilepath, "a", newline="", encoding="utf-8") as statsfile:
+        joined_stats.to_csv(path_or_buf=statsfile, header=statsfile.tell() == 0, index=True)
     return
-- 
2.43.0


From 395dbb159fa90b669e602da8c890bb2e71a2a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 13/42] fix: report a run that left an empty log as
 unsuccessful

---
 src/sorcha/utilities/check_output_logs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/check_output_logs.py b/src/sorcha/utilities/check_output_logs.py
index e9809ff..5f63f4e 100644
--- a/src/sorcha/utilities/check_output_logs.py
+++ b/src/sorcha/utilities/check_output_logs.py
@@ -53,7 +53,8 @@ def check_all_logs(log_files):
     for log_file in log_files:
         with open(log_file, "r") as f:
             lines = f.read().splitlines()
-            last_line = lines[-1]
+            # the log of a run that died right after creating it is empty
+            last_line = lines[-1] if lines else " "
 
             if last_line[-29:] == "Sorcha process is completed. ":
                 good_log.append(True)
-- 
2.43.0


From 74fdbddf39fb22d0263fd5053f24dd06520e7fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:08 +0000
Subject: [PATCH 14/42] fix: look for an existing check-logs report under the
 name it is saved as

---
 src/sorcha_cmdline/outputs.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sorcha_cmdline/outputs.py b/src/sorcha_cmdline/outputs.py
index 880e2fc..a6a2903 100644
--- a/src/sorcha_cmdline/outputs.py
+++ b/src/sorcha_cmdline/outputs.py
@@ -44,6 +44,8 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
 
     if args.outpath:
         args.outpath = os.path.abspath(args.outpath)
+        if args.outpath[-4:] != ".csv":
+            args.outpath = args.outpath + ".csv"
         _ = FindDirectoryOrExit(os.path.dirname(args.outpath), "-o, --outpath")
 
         if os.path.exists(args.outpath) and not args.force:
@@ -56,9 +58,6 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
         elif os.path.exists(args.outpath) and args.force:
             os.remove(args.outpath)
 
-        if args.outpath[-4:] != ".csv":
-            args.outpath = args.outpath + ".csv"
-
     return check_output_logs(args.filepath, args.outpath)
 
 
-- 
2.43.0


From 9c221c40ddce52d4050993d839cc0a7d103d58d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 15/42] fix: do not merge the database create-sqlite is writing
 into itself

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 7fe2cdb..d653185 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -25,7 +25,7 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
         Connection to sqlite3 database.
 
     filename : string
-        filepath/name of sqlite3 database.
+        filepath/name of the sqlite3 database being written, which is not read as results.
 
     output_path : string
         filepath of directory containing SSPP output folders.
@@ -146,7 +146,7 @@ def create_results_database(args):
     else:
         stemname = ""
 
-    create_results_table(cnx_out, args.inputs, args.results, stemname)
+    create_results_table(cnx_out, args.output, args.results, stemname)
 
     create_inputs_table(cnx_out, args.inputs, "params")
     create_inputs_table(cnx_out, args.inputs, "orbits")
-- 
2.43.0


From 9f10978cb3de138e213a1b67ecd6197e0cb37122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:41 +0000
Subject: [PATCH 16/42] fix: take create-sqlite folder and stem names literally

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index d653185..7ca932e 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -42,7 +42,9 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
 
     """
 
-    output_list = glob.glob(os.path.join(output_path, "**", output_stem + "*.db"), recursive=True)
+    output_list = glob.glob(
+        os.path.join(glob.escape(output_path), "**", glob.escape(output_stem) + "*.db"), recursive=True
+    )
 
     if filename in output_list:
         output_list.remove(filename)
@@ -104,7 +106,7 @@ def create_inputs_table(cnx_out, input_path, table_type):
 
     """
 
-    input_list = glob.glob(input_path + "/" + table_type + "*", recursive=True)
+    input_list = glob.glob(glob.escape(input_path) + "/" + table_type + "*", recursive=True)
 
     if not input_list:
         sys.exit("Could not find any " + table_type + " files in given inputs folder.")
-- 
2.43.0


From 35a554155b0af4343bc95fdaca6bf753f48d8995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 17/42] fix: keep ObjIDs as written when create-sqlite reads
 the inputs

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 7ca932e..9e4fc9a 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -115,7 +115,7 @@ def create_inputs_table(cnx_out, input_path, table_type):
     cur_out.execute("DROP TABLE if exists " + table_type)
 
     for filename in input_list:
-        df = pd.read_csv(filename, sep="\\s+")
+        df = pd.read_csv(filename, sep="\\s+", dtype={"ObjID": str})
 
         if "INDEX" in df.columns:
             df = df.rename(columns={"INDEX": "orig_index"})
-- 
2.43.0


From bd7576c921a707f0710baa67e954f00c906e7e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:11 +0000
Subject: [PATCH 18/42] fix: match the columns of merged databases by name

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 9e4fc9a..9be16d3 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -64,10 +64,6 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
 
     cur_out.execute(create_command)
 
-    # building the correct SQL command to add data
-    questions = "(" + (len(column_names) - 1) * "?, " + "?)"
-    sql_command = "INSERT into " + table_name + " VALUES " + questions
-
     for filename in output_list:
         con = sqlite3.connect(filename)
         cur = con.cursor()
@@ -75,6 +71,11 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
         cur.execute("SELECT * FROM sorcha_results")
         output = cur.fetchall()
 
+        # building the correct SQL command to add data: the files need not agree on the column order
+        column_string = "[" + "], [".join(c[0] for c in cur.description) + "]"
+        questions = "(" + (len(cur.description) - 1) * "?, " + "?)"
+        sql_command = "INSERT into " + table_name + "(" + column_string + ") VALUES " + questions
+
         for row in output:
             cur_out.execute(sql_command, row)
 
-- 
2.43.0


From 4bb2e7f695ac1c93960b678934242430b3b4205e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 19/42] fix: fail when create-sqlite cannot list a results or
 inputs folder

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 16 +++++++++++-----
 src/sorcha/utilities/fileAccessUtils.py          | 11 +++++++++++
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 9be16d3..eb00fd1 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -9,11 +9,12 @@
 
 import pandas as pd
 import sqlite3
-import glob
 import argparse
 import sys
 import os
 
+from sorcha.utilities.fileAccessUtils import raise_error
+
 
 def create_results_table(cnx_out, filename, output_path, output_stem, table_name="sorcha_results"):
     """
@@ -42,9 +43,12 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
 
     """
 
-    output_list = glob.glob(
-        os.path.join(glob.escape(output_path), "**", glob.escape(output_stem) + "*.db"), recursive=True
-    )
+    output_list = [
+        os.path.join(dirpath, name)
+        for dirpath, _, names in os.walk(output_path, onerror=raise_error, followlinks=True)
+        for name in names
+        if name.startswith(output_stem) and name.endswith(".db") and not name.startswith(".")
+    ]
 
     if filename in output_list:
         output_list.remove(filename)
@@ -107,7 +111,9 @@ def create_inputs_table(cnx_out, input_path, table_type):
 
     """
 
-    input_list = glob.glob(glob.escape(input_path) + "/" + table_type + "*", recursive=True)
+    input_list = [
+        os.path.join(input_path, name) for name in os.listdir(input_path) if name.startswith(table_type)
+    ]
 
     if not input_list:
         sys.exit("Could not find any " + table_type + " files in given inputs folder.")
diff --git a/src/sorcha/utilities/fileAccessUtils.py b/src/sorcha/utilities/fileAccessUtils.py
index df5fc19..bece11a 100755
--- a/src/sorcha/utilities/fileAccessUtils.py
+++ b/src/sorcha/utilities/fileAccessUtils.py
@@ -84,3 +84,14 @@ def replacing(path):
         with contextlib.suppress(FileNotFoundError):
             os.remove(partial)
         raise
+
+
+def raise_error(error):
+    """For os.walk(onerror=...), which skips directories it cannot read unless told otherwise.
+
+    Parameters
+    ----------
+    error : OSError
+        The error met while listing a directory.
+    """
+    raise error
-- 
2.43.0


From 993f89c4893380e70f63091a744b6f85d0b43162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:38 +0000
Subject: [PATCH 20/42] fix: fail when check-logs cannot list a folder

---
 src/sorcha/utilities/check_output_logs.py | 4 +++-
 src/sorcha/utilities/fileAccessUtils.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/check_output_logs.py b/src/sorcha/utilities/check_output_logs.py
index 5f63f4e..6c353d9 100644
--- a/src/sorcha/utilities/check_output_logs.py
+++ b/src/sorcha/utilities/check_output_logs.py
@@ -2,6 +2,8 @@ import os
 import sys
 import pandas as pd
 
+from sorcha.utilities.fileAccessUtils import raise_error
+
 
 def find_all_log_files(filepath):
     """Looks for all Sorcha log files in the given filepath and subdirectories
@@ -20,7 +22,7 @@ def find_all_log_files(filepath):
     """
     log_files = []
 
-    for dirpath, dirnames, filenames in os.walk(filepath):
+    for dirpath, dirnames, filenames in os.walk(filepath, onerror=raise_error):
         for filename in [f for f in filenames if f.endswith("sorcha.log")]:
             log_files.append(os.path.join(dirpath, filename))
 
diff --git a/src/sorcha/utilities/fileAccessUtils.py b/src/sorcha/utilities/fileAccessUtils.py
index bece11a..623b0b5 100755
--- a/src/sorcha/utilities/fileAccessUtils.py
+++ b/src/sorcha/utilities/fileAccessUtils.py
@@ -88,10 +88,12 @@ def replacing(path):
 
 def raise_error(error):
     """For os.walk(onerror=...), which skips directories it cannot read unless told otherwise.
+    A directory that does not exist has nothing to be missed.
 
     Parameters
     ----------
     error : OSError
         The error met while listing a directory.
     """
-    raise error
+    if not isinstance(error, FileNotFoundError):
+        raise error
-- 
2.43.0


From 976e97c65e721f4f598f5bf70ebd34444cb0c6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 21/42] fix: sorcha bootstrap fails when a file could not be
 downloaded

---
 src/sorcha_cmdline/bootstrap.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sorcha_cmdline/bootstrap.py b/src/sorcha_cmdline/bootstrap.py
index 0a56614..6224390 100644
--- a/src/sorcha_cmdline/bootstrap.py
+++ b/src/sorcha_cmdline/bootstrap.py
@@ -1,6 +1,8 @@
 #
 # The `sorcha run` subcommand implementation
 #
+import sys
+
 import pooch
 from sorcha_cmdline.sorchaargumentparser import SorchaArgumentParser
 
@@ -71,13 +73,15 @@ def execute(args):
 
         # download the data files in parallel
         with concurrent.futures.ThreadPoolExecutor() as executor:
-            executor.map(fetch_partial, default_files.data_files_to_download)
+            # an exception of a download is only raised when its result is asked for
+            list(executor.map(fetch_partial, default_files.data_files_to_download))
 
         # build the meta_kernel.txt file
         build_meta_kernel_file(default_files, retriever)
 
         print("Checking cache after attempting to download and create files.")
-        _check_for_existing_files(retriever, default_files.data_file_list)
+        if not _check_for_existing_files(retriever, default_files.data_file_list):
+            sys.exit("ERROR: not all files could be downloaded or created.")
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 266874c61e02d6c4161a8dec811c640356ca5868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:21 +0000
Subject: [PATCH 22/42] fix: sorcha bootstrap -f works on an incomplete cache

---
 src/sorcha/utilities/retrieve_ephemeris_data_files.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/retrieve_ephemeris_data_files.py b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
index c487d56..d960137 100644
--- a/src/sorcha/utilities/retrieve_ephemeris_data_files.py
+++ b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
@@ -46,9 +46,11 @@ def _remove_files(auxconfigs, retriever: pooch.Pooch) -> None:  # pragma: no cov
     """
 
     for file_name in auxconfigs.data_file_list:
-        file_path = retriever.fetch(file_name)
-        print(f"Deleting file: {file_path}")
-        os.remove(file_path)
+        # the cache may be incomplete: no file needs to be there to be removed
+        file_path = os.path.join(retriever.abspath, file_name)
+        if os.path.exists(file_path):
+            print(f"Deleting file: {file_path}")
+            os.remove(file_path)
 
 
 def _check_for_existing_files(retriever: pooch.Pooch, file_list: list[str]) -> bool:  # pragma: no cover
-- 
2.43.0


From 7049dc7ab6390e354ccbf7646b5a25f8c01a3acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 23/42] fix: step the ephemeris pickets back in time for an
 earlier pointing

---
 src/sorcha/ephemeris/pixel_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index c389bec..fcfe12d 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -301,7 +301,7 @@ class PixelDict:
             if abs(jd_tdb - self.t0) <= 1.5 * self.picket_interval:
                 # Can compute just one new set and shift the others
 
-                if jd_tdb <= self.tm:
+                if jd_tdb < self.t0:
                     # shift earlier
                     self.tp = self.t0
                     self.r_obs_p = self.r_obs_0
-- 
2.43.0


From f09c4da981878816cd66c5ed435fbeefaa4edef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 24/42] fix: keep the healpix pixels an object crosses among
 its own

---
 src/sorcha/ephemeris/pixel_dict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index fcfe12d..3a37fcc 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -280,8 +280,9 @@ class PixelDict:
             pixels = hp.vec2pix(self.nside, vec[:, 0], vec[:, 1], vec[:, 2], nest=self.nested)
             pixels = list(set(pixels))
 
-            # Add the neighboring pixels
-            pixels = set(hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten())
+            # Add the neighboring pixels (get_all_neighbours leaves out the pixels themselves)
+            neighbours = hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten()
+            pixels = set(pixels).union(neighbours)
 
             # Add the pixels that the object traverse, and the neighbors, to the pixel_dict
             for pix in pixels:
-- 
2.43.0


From 2d1333a6895d959c2cda9943bf6c6c8826c980d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 25/42] fix: do not copy over a file that cannot be looked at

---
 src/sorcha/utilities/sorcha_copy_configs.py    | 3 ++-
 src/sorcha/utilities/sorcha_copy_demo_files.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/sorcha_copy_configs.py b/src/sorcha/utilities/sorcha_copy_configs.py
index 1a2f1ed..b6ee4c2 100644
--- a/src/sorcha/utilities/sorcha_copy_configs.py
+++ b/src/sorcha/utilities/sorcha_copy_configs.py
@@ -52,7 +52,8 @@ def copy_demo_configs(copy_location, which_configs, force_overwrite):
         )
 
     for fn in config_locations:
-        if not force_overwrite and os.path.isfile(os.path.join(copy_location, fn)):
+        # isfile() would take a file it fails to look at for one that does not exist
+        if not force_overwrite and fn in os.listdir(copy_location):
             sys.exit(
                 "Identically named file exists at location. Re-run with -f or --force to force overwrite."
             )
diff --git a/src/sorcha/utilities/sorcha_copy_demo_files.py b/src/sorcha/utilities/sorcha_copy_demo_files.py
index 3504711..a518cd4 100644
--- a/src/sorcha/utilities/sorcha_copy_demo_files.py
+++ b/src/sorcha/utilities/sorcha_copy_demo_files.py
@@ -39,7 +39,8 @@ def copy_demo_files(copy_location, force_overwrite):
     ]
 
     for fn in demo_files:
-        if not force_overwrite and os.path.isfile(os.path.join(copy_location, fn)):
+        # isfile() would take a file it fails to look at for one that does not exist
+        if not force_overwrite and fn in os.listdir(copy_location):
             sys.exit(
                 "Identically named file exists at location. Re-run with -f or --force to force overwrite."
             )
-- 
2.43.0


From 8a30d7dc3bbce6b94aecbee39b3bc8a4f4de2a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 26/42] fix: name the transient efficiency in the delivered DES
 configuration as it is read

---
 src/sorcha/data/survey_setups/DES_config_file.ini | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/data/survey_setups/DES_config_file.ini b/src/sorcha/data/survey_setups/DES_config_file.ini
index e321bc9..06e0b21 100644
--- a/src/sorcha/data/survey_setups/DES_config_file.ini
+++ b/src/sorcha/data/survey_setups/DES_config_file.ini
@@ -99,7 +99,7 @@ fading_function_on = True
 
 # overall transient efficiency for moving object detection. 0.95529 in Bernardinelli et al (2022).
 # if not specifed will default to 1 and be neglible 
-self.des_transient_efficency = 0.95529
+des_transient_efficency = 0.95529
 
 
 [LINKINGFILTER]
-- 
2.43.0


From 8bed8aa873fa34a8139bdb1c75a8a59206daae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:58 +0000
Subject: [PATCH 27/42] fix: return an empty table when nothing is detected and
 tables are asked for

---
 src/sorcha/des.py    | 5 +++--
 src/sorcha/sorcha.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/des.py b/src/sorcha/des.py
index eab6369..eb958b6 100644
--- a/src/sorcha/des.py
+++ b/src/sorcha/des.py
@@ -400,8 +400,9 @@ def runDESSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        # nothing detected is an empty table, not an error
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
diff --git a/src/sorcha/sorcha.py b/src/sorcha/sorcha.py
index b8a32de..a4b409f 100755
--- a/src/sorcha/sorcha.py
+++ b/src/sorcha/sorcha.py
@@ -402,8 +402,9 @@ def runLSSTSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        # nothing detected is an empty table, not an error
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
-- 
2.43.0


From f315c827b41b34a1262a00fe5c249418de4effcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:58 +0000
Subject: [PATCH 28/42] fix: leave an earlier database alone when tables are
 only returned

---
 src/sorcha/des.py    | 6 ++++--
 src/sorcha/sorcha.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/des.py b/src/sorcha/des.py
index eb958b6..498e074 100644
--- a/src/sorcha/des.py
+++ b/src/sorcha/des.py
@@ -391,8 +391,10 @@ def runDESSimulation(args, sconfigs, return_only=False):
         loopCounter = loopCounter + 1
         # end for
 
-    if sconfigs.output.output_format == "sqlite3" and os.path.isfile(
-        os.path.join(args.outpath, args.outfilestem + ".db")
+    if (
+        not return_only
+        and sconfigs.output.output_format == "sqlite3"
+        and os.path.isfile(os.path.join(args.outpath, args.outfilestem + ".db"))
     ):
         pplogger.info("Indexing output SQLite database...")
         PPIndexSQLDatabase(os.path.join(args.outpath, args.outfilestem + ".db"))
diff --git a/src/sorcha/sorcha.py b/src/sorcha/sorcha.py
index a4b409f..371bc43 100755
--- a/src/sorcha/sorcha.py
+++ b/src/sorcha/sorcha.py
@@ -393,8 +393,10 @@ def runLSSTSimulation(args, sconfigs, return_only=False):
         loopCounter = loopCounter + 1
         # end for
 
-    if sconfigs.output.output_format == "sqlite3" and os.path.isfile(
-        os.path.join(args.outpath, args.outfilestem + ".db")
+    if (
+        not return_only
+        and sconfigs.output.output_format == "sqlite3"
+        and os.path.isfile(os.path.join(args.outpath, args.outfilestem + ".db"))
     ):
         pplogger.info("Indexing output SQLite database...")
         PPIndexSQLDatabase(os.path.join(args.outpath, args.outfilestem + ".db"))
-- 
2.43.0


From 058ad5a654ed28f8797b33c43a136ea7b471860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:58 +0000
Subject: [PATCH 29/42] fix: the built-in DES detector corners are degrees

---
 src/sorcha/modules/PPFootprintFilter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/modules/PPFootprintFilter.py b/src/sorcha/modules/PPFootprintFilter.py
index a61ba3d..65c3918 100644
--- a/src/sorcha/modules/PPFootprintFilter.py
+++ b/src/sorcha/modules/PPFootprintFilter.py
@@ -561,6 +561,9 @@ class Footprint:
                 stream = importlib_resources.files(__name__).joinpath(default_camera_config_file)
                 logger.info(f"Using built-in CCD Detector file: {default_camera_config_file}")
                 allcornersdf = pd.read_csv(stream)
+                if surveyname.lower() == "des":
+                    # the corners of the DES detectors are given in degrees
+                    allcornersdf[["x", "y"]] = np.radians(allcornersdf[["x", "y"]])
             except IOError:
                 logger.error(f"Error loading default camera footprint, exiting ...")
                 sys.exit(1)
-- 
2.43.0


From 9ad21e2a8ea16c1568e663058ad8128af6acf8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:16 +0000
Subject: [PATCH 30/42] fix: refuse a chunk size below one instead of looping
 for ever

---
 src/sorcha/utilities/sorchaConfigs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index de7ea22..ad466e1 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -56,6 +56,9 @@ class inputConfigs:
         check_value_in_list(self.eph_format, ["csv", "whitespace", "hdf5"], "eph_format")
         check_value_in_list(self.aux_format, ["comma", "whitespace", "csv"], "aux_format")
         self.size_serial_chunk = cast_as_int(self.size_serial_chunk, "size_serial_chunk")
+        if self.size_serial_chunk < 1:
+            logging.error("ERROR: size_serial_chunk is zero or negative.")
+            sys.exit("ERROR: size_serial_chunk is zero or negative.")
 
 
 @dataclass
-- 
2.43.0


From b882044dea38b0123c88bbbb11346d3ad1c25240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:16 +0000
Subject: [PATCH 31/42] fix: report unsupported DES and visits_footprint
 switches instead of failing in the report

---
 src/sorcha/utilities/sorchaConfigs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index ad466e1..22574ff 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -944,7 +944,7 @@ class expertConfigs:
                 self.trailing_losses_on, "trailing_losses_on", False
             )
             if self.randomization_on == True or self.vignetting_on == True or self.trailing_losses_on == True:
-                logging.ERROR(
+                logging.error(
                     "ERROR: DES simulation does not support trailing losses, vignetting and randomization."
                 )
                 sys.exit(
@@ -956,7 +956,7 @@ class expertConfigs:
             )
             self.vignetting_on = cast_as_bool_or_set_default(self.vignetting_on, "vignetting_on", False)
             if self.vignetting_on == True:
-                logging.ERROR("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
+                logging.error("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
                 sys.exit("ERROR: fov camera model 'visits_footprint does not support vignetting.")
 
 
-- 
2.43.0


From 0d3419f5226b34c41b71f209d7c40cc83557528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:16 +0000
Subject: [PATCH 32/42] fix: nan is no number for a configuration parameter

---
 src/sorcha/utilities/sorchaConfigs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 22574ff..9bb641b 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1400,7 +1400,8 @@ def cast_as_float(value, key):
     """
 
     try:
-        float(value)
+        if np.isnan(float(value)):
+            raise ValueError
     except ValueError:
         logging.error(f"ERROR: expected a float for config parameter {key}. Check value in config file.")
         sys.exit(f"ERROR: expected a float for config parameter {key}. Check value in config file.")
-- 
2.43.0


From ea14c797baf4e9f37dfacafae7ea5a3af0681ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:16 +0000
Subject: [PATCH 33/42] fix: zero decimals round to whole numbers

---
 src/sorcha/modules/PPOutput.py        | 4 ++--
 src/sorcha/utilities/sorchaConfigs.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index 099d599..49cd4dc 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -228,7 +228,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
                 "ERROR: at least one of the columns provided in output_columns does not seem to exist. Check docs and try again."
             )
 
-    if sconfigs.output.position_decimals:
+    if sconfigs.output.position_decimals is not None:
         for position_col in [
             "fieldRA_deg",
             "fieldDec_deg",
@@ -245,7 +245,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
             except KeyError:
                 continue
 
-    if sconfigs.output.magnitude_decimals:
+    if sconfigs.output.magnitude_decimals is not None:
         for magnitude_col in [
             "PSFMag",
             "trailedSourceMag",
diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 9bb641b..1820ddc 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1731,7 +1731,7 @@ def PrintConfigsToLog(sconfigs, cmd_args):
         "Output files will be saved in path: " + cmd_args.outpath + " with filestem " + cmd_args.outfilestem
     )
     pplogger.info("Output files will be saved as format: " + sconfigs.output.output_format)
-    if sconfigs.output.position_decimals:
+    if sconfigs.output.position_decimals is not None:
         pplogger.info(
             "In the output, positions will be rounded to "
             + str(sconfigs.output.position_decimals)
@@ -1739,7 +1739,7 @@ def PrintConfigsToLog(sconfigs, cmd_args):
         )
     else:
         pplogger.info("In the output, positions will not be rounded")
-    if sconfigs.output.magnitude_decimals:
+    if sconfigs.output.magnitude_decimals is not None:
         pplogger.info(
             "In the output, magnitudes will be rounded to "
             + str(sconfigs.output.magnitude_decimals)
-- 
2.43.0


From 0df4caf0e8e29d1903802ee889a1be1a44631c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:16 +0000
Subject: [PATCH 34/42] fix: a circle radius or fill factor of zero is not an
 unset one

---
 src/sorcha/modules/PPApplyFOVFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index 325f928..e15de35 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -71,10 +71,10 @@ def PPApplyFOVFilter(observations, sconfigs, module_rngs, visits=None, footprint
 
     if sconfigs.fov.camera_model == "circle":
         verboselog("FOV is circular...")
-        if sconfigs.fov.circle_radius:
+        if sconfigs.fov.circle_radius is not None:
             verboselog("Circle radius is set. Applying circular footprint filter...")
             observations = PPCircleFootprint(observations, sconfigs.fov.circle_radius)
-        if sconfigs.fov.fill_factor:
+        if sconfigs.fov.fill_factor is not None:
             verboselog("Fill factor is set. Removing random observations to mimic chip gaps.")
             observations = PPSimpleSensorArea(observations, module_rngs, sconfigs.fov.fill_factor)
 
-- 
2.43.0


From 5c2ddcc68a74c1aca2eef87496fc0cc7955c7388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:24 +0000
Subject: [PATCH 35/42] fix: say that the complex physical parameter file is
 missing

---
 src/sorcha_cmdline/run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha_cmdline/run.py b/src/sorcha_cmdline/run.py
index 7cbc01f..a14f3bd 100644
--- a/src/sorcha_cmdline/run.py
+++ b/src/sorcha_cmdline/run.py
@@ -176,11 +176,11 @@ def execute(args):
         pplogger.error("ERROR: A+R simulation not enabled and no ephemerides file provided")
         sys.exit("ERROR: A+R simulation not enabled and no ephemerides file provided")
 
-    if sconfigs.lightcurve.lc_model and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.lightcurve.lc_model and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for light curve model")
         sys.exit("ERROR: No complex physical parameter file provided for light curve model")
 
-    if sconfigs.activity.comet_activity and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.activity.comet_activity and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for comet activity model")
         sys.exit("ERROR: No complex physical parameter file provided for comet activity model")
     if "SORCHA_SEED" in os.environ:
-- 
2.43.0


From ac8f5c1a5a0e272e608c009cb70689d2345f8413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:52 +0000
Subject: [PATCH 36/42] fix: an observatory at longitude or latitude zero has a
 position

---
 src/sorcha/ephemeris/simulation_parsing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_parsing.py b/src/sorcha/ephemeris/simulation_parsing.py
index 6fb6e6f..ff39b66 100644
--- a/src/sorcha/ephemeris/simulation_parsing.py
+++ b/src/sorcha/ephemeris/simulation_parsing.py
@@ -338,9 +338,9 @@ class Observatory:
         """
         returned_tuple = (None, None, None)
         if (
-            obs_location.get("Longitude", False)
-            and obs_location.get("cos", False)
-            and obs_location.get("sin", False)
+            obs_location.get("Longitude") is not None
+            and obs_location.get("cos") is not None
+            and obs_location.get("sin") is not None
         ):
             longitude = obs_location["Longitude"] * np.pi / 180.0
             x = obs_location["cos"] * np.cos(longitude)
-- 
2.43.0


From b77f816eb327b14d605573ba718616aca09df25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 37/42] fix: an object exactly at the centre of a pointing is
 in the field

---
 src/sorcha/ephemeris/simulation_driver.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index 324fca7..1bf2173 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -203,7 +203,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
             v = sim_dict[k]
             sim, ex = v["sim"], v["ex"]
             uv /= np.linalg.norm(uv)
-            ang = np.arccos(np.dot(uv, visit_vector)) * 180 / np.pi
+            ang = np.arccos(np.clip(np.dot(uv, visit_vector), -1.0, 1.0)) * 180 / np.pi
             if ang < ang_fov_buffer:
                 (
                     ephem_geom_params.rho,
@@ -214,7 +214,9 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
                 ) = integrate_light_time(sim, ex, pointing["fieldJD_TDB"] - ephem.jd_ref, r_obs, lt0=0.01)
                 ephem_geom_params.rho_hat = ephem_geom_params.rho / ephem_geom_params.rho_mag
 
-                ang_from_center = 180 / np.pi * np.arccos(np.dot(ephem_geom_params.rho_hat, visit_vector))
+                ang_from_center = (
+                    180 / np.pi * np.arccos(np.clip(np.dot(ephem_geom_params.rho_hat, visit_vector), -1.0, 1.0))
+                )
                 if ang_from_center < ang_fov_buffer:
                     out_tuple = calculate_rates_and_geometry(pointing, ephem_geom_params)
                     in_memory_csv.writerow(out_tuple)
@@ -303,9 +305,8 @@ def calculate_rates_and_geometry(pointing: pd.DataFrame, ephem_geom_params: Ephe
     r_ast_sun = ephem_geom_params.r_ast - r_sun
     v_ast_sun = ephem_geom_params.v_ast - v_sun
     r_ast_obs = ephem_geom_params.r_ast - r_obs
-    phase_angle = np.arccos(
-        np.dot(r_ast_sun, r_ast_obs) / (np.linalg.norm(r_ast_sun) * np.linalg.norm(r_ast_obs))
-    )
+    cos_phase = np.dot(r_ast_sun, r_ast_obs) / (np.linalg.norm(r_ast_sun) * np.linalg.norm(r_ast_obs))
+    phase_angle = np.arccos(np.clip(cos_phase, -1.0, 1.0))
     obs_sun = r_obs - r_sun
     dobs_sundt = v_obs - v_sun
 
-- 
2.43.0


From f626fc6fdb0670fd1aa924fa61a6db807c1dba97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:42 +0000
Subject: [PATCH 38/42] fix: refuse unknown sections of the configuration file

---
 src/sorcha/utilities/sorchaConfigs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 1820ddc..51b69c8 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1262,6 +1262,12 @@ class sorchaConfigs(basesorchaConfigs):
             "EXPERT": expertConfigs,
             "AUXILIARY": auxiliaryConfigs,
         }
+        # a section that is not known would be left out of the simulation without a word
+        for section in config_object.sections():
+            if section not in section_list:
+                self.pplogger.error(f"ERROR: unknown section [{section}] in config file.")
+                sys.exit(f"ERROR: unknown section [{section}] in config file.")
+
         # when adding new sections in config file this general function needs the name of the section in uppercase
         # to be the same as the attributes defined above in lowercase e.g. section INPUT has attribute input
         # general function that reads in config file sections into there config dataclasses
-- 
2.43.0


From a6d1129d6d7a7549ff669bb378130ff8980ff666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:34 +0000
Subject: [PATCH 39/42] fix: place very eccentric orbits on their way in where
 they are

---
 src/sorcha/ephemeris/orbit_conversion_utilities.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/orbit_conversion_utilities.py b/src/sorcha/ephemeris/orbit_conversion_utilities.py
index 02db9cb..04f957f 100644
--- a/src/sorcha/ephemeris/orbit_conversion_utilities.py
+++ b/src/sorcha/ephemeris/orbit_conversion_utilities.py
@@ -248,7 +248,9 @@ def universal_cartesian(mu, q, e, incl, longnode, argperi, tp, epochMJD_TDB):
     if e < 1:
         a = q / (1 - e)
         per = 2 * np.pi / np.sqrt(mu / (a * a * a))
-        t = t % per
+        # stay within half a period of perihelion: a whole period less a little is not
+        # known well enough for very eccentric orbits on their way in
+        t = t - per * np.floor(t / per + 0.5)
 
     # Establish constants for Kepler's equation,
     # starting at pericenter:
-- 
2.43.0


From bd294db2730b9b7ee1c6c778dbdc05d7cf01a8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:22 +0000
Subject: [PATCH 40/42] fix: per-filter phase parameters with a chunk in none
 of the observing filters

---
 src/sorcha/modules/PPApplyColourOffsets.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/modules/PPApplyColourOffsets.py b/src/sorcha/modules/PPApplyColourOffsets.py
index 48a1905..c41ba65 100644
--- a/src/sorcha/modules/PPApplyColourOffsets.py
+++ b/src/sorcha/modules/PPApplyColourOffsets.py
@@ -85,8 +85,12 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
         if set([H_col, "G1", "G2"]).issubset(observations.columns):
             pass
         elif set(col_list).issubset(observations.columns):
-            observations["G1"] = observations.apply(lambda row: row["G1" + row["optFilter"]], axis=1)
-            observations["G2"] = observations.apply(lambda row: row["G2" + row["optFilter"]], axis=1)
+            observations["G1"] = observations.apply(
+                lambda row: row["G1" + row["optFilter"]], axis=1, result_type="reduce"
+            )
+            observations["G2"] = observations.apply(
+                lambda row: row["G2" + row["optFilter"]], axis=1, result_type="reduce"
+            )
             observations.drop(col_list[1:], axis=1, inplace=True)
         else:
             pplogger.error(
@@ -103,7 +107,9 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
         if set([H_col, "GS"]).issubset(observations.columns):
             pass
         elif set(col_list).issubset(observations.columns):
-            observations["GS"] = observations.apply(lambda row: row["GS" + row["optFilter"]], axis=1)
+            observations["GS"] = observations.apply(
+                lambda row: row["GS" + row["optFilter"]], axis=1, result_type="reduce"
+            )
             observations.drop(col_list[1:], axis=1, inplace=True)
         else:
             pplogger.error(
@@ -120,7 +126,9 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
         if set([H_col, "G12"]).issubset(observations.columns):
             pass
         elif set(col_list).issubset(observations.columns):
-            observations["G12"] = observations.apply(lambda row: row["G12" + row["optFilter"]], axis=1)
+            observations["G12"] = observations.apply(
+                lambda row: row["G12" + row["optFilter"]], axis=1, result_type="reduce"
+            )
             observations.drop(col_list[1:], axis=1, inplace=True)
         else:
             pplogger.error(
@@ -137,7 +145,9 @@ def PPApplyColourOffsets(observations, function, othercolours, observing_filters
         if set([H_col, "S"]).issubset(observations.columns):
             pass
         elif set(col_list).issubset(observations.columns):
-            observations["S"] = observations.apply(lambda row: row["S" + row["optFilter"]], axis=1)
+            observations["S"] = observations.apply(
+                lambda row: row["S" + row["optFilter"]], axis=1, result_type="reduce"
+            )
             observations.drop(col_list[1:], axis=1, inplace=True)
         else:
             pplogger.error(
-- 
2.43.0


From ceb80c48a72de1217dc4ac0f19fb763ef433e562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:02 +0000
Subject: [PATCH 41/42] fix: refuse orbit and parameter tables with missing
 values

---
 src/sorcha/readers/CombinedDataReader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/readers/CombinedDataReader.py b/src/sorcha/readers/CombinedDataReader.py
index 984c5f7..911e240 100755
--- a/src/sorcha/readers/CombinedDataReader.py
+++ b/src/sorcha/readers/CombinedDataReader.py
@@ -156,7 +156,7 @@ class CombinedDataReader:
             primary_df = None
         else:
             verboselog(f"Loading object IDs from: {self.aux_data_readers[0].get_reader_info()}")
-            primary_df = self.aux_data_readers[0].read_rows(self.block_start, block_size)
+            primary_df = self.aux_data_readers[0].read_rows(self.block_start, block_size, disallow_nan=True)
             self.block_start += len(primary_df)
 
             if not "ObjID" in primary_df.columns:
@@ -181,7 +181,7 @@ class CombinedDataReader:
                 current_df = primary_df
             else:
                 verboselog(f"Reading input file: {reader.get_reader_info()}")
-                current_df = reader.read_objects(obj_ids)
+                current_df = reader.read_objects(obj_ids, disallow_nan=True)
 
             # Check that the new dataframe has at least the object IDs matching
             # the ephemeris frame.
@@ -231,7 +231,7 @@ class CombinedDataReader:
 
         # Load object IDs from the primary table.
         verboselog(f"Loading object IDs from: {self.aux_data_readers[0].get_reader_info()}")
-        primary_df = self.aux_data_readers[0].read_rows(self.block_start, block_size)
+        primary_df = self.aux_data_readers[0].read_rows(self.block_start, block_size, disallow_nan=True)
         self.block_start += len(primary_df)
 
         if not "ObjID" in primary_df.columns:
@@ -251,7 +251,7 @@ class CombinedDataReader:
                 current_df = primary_df
             else:
                 verboselog(f"Reading input file: {reader.get_reader_info()}")
-                current_df = reader.read_objects(obj_ids)
+                current_df = reader.read_objects(obj_ids, disallow_nan=True)
 
             # Check that the new dataframe has at least the object IDs matching
             # the ephemeris frame.
-- 
2.43.0


From f7142bf7899be1ac9806d959648db27cf9b56322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:05 +0000
Subject: [PATCH 42/42] fix: find blank lines in the input tables before rows
 are read by number

---
 src/sorcha/readers/CSVReader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index f14ecdc..fdd47b7 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -226,6 +226,7 @@ class CSVDataReader(ObjectDataReader):
                 usecols=["ObjID"],
                 header=self.header_row,
                 dtype={"ObjID": str},
+                skip_blank_lines=False,
             )
         else:
             self.obj_id_table = pd.read_csv(
@@ -234,8 +235,14 @@ class CSVDataReader(ObjectDataReader):
                 usecols=["ObjID"],
                 header=self.header_row,
                 dtype={"ObjID": str},
+                skip_blank_lines=False,
             )
 
+        # Rows are found by their line numbers, so there must be no blank lines between them.
+        ids = self.obj_id_table["ObjID"]
+        if ids.isnull().any() or (ids.str.strip() == "").any():
+            self._validate_csv(self.header_row)
+
         self.obj_id_table = self._validate_object_id_column(self.obj_id_table)
 
     def _read_objects_internal(self, obj_ids, **kwargs):
-- 
2.43.0

