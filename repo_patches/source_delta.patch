From abdd6720a9b78b037d53a6cccf3ba1c865ce5cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:49 +0000
Subject: [PATCH 01/17] fix: honour RunBefore and RunAfter, which were never
 recognised as restrictions

---
 instancespace/stage_builder.py | 27 ++++++++++-----------------
 instancespace/stage_runner.py  | 31 ++++++++++++++++++++++++++++---
 instancespace/stages/stage.py  | 12 +++++++++++-
 3 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index adb8080..828f49a 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -3,7 +3,12 @@
 from typing import NamedTuple, Self, get_args
 
 from instancespace.stage_runner import StageRunner, StageScheduleElement, _StageArgument
-from instancespace.stages.stage import RunAfter, RunBefore, StageClass
+from instancespace.stages.stage import (
+    RunAfter,
+    RunBefore,
+    StageClass,
+    is_run_restriction,
+)
 
 
 class _BeforeAfterRestriction(NamedTuple):
@@ -107,9 +112,7 @@ class StageBuilder:
         outputs = stage._outputs()  # noqa: SLF001
 
         for output_name, output_type in self._named_tuple_to_stage_arguments(outputs):
-            if isinstance(output_type, type) and (
-                issubclass(output_type, RunBefore) or issubclass(output_type, RunAfter)
-            ):
+            if is_run_restriction(output_type, RunBefore, RunAfter):
                 raise TypeError(
                     f"Argument {output_name} is a {output_type}. "
                     + f"{output_type}s are only allowed as inputs.",
@@ -265,11 +268,7 @@ class StageBuilder:
         return {
             argument
             for argument in arguments
-            if not isinstance(argument.parameter_type, type)
-            or not (
-                issubclass(argument.parameter_type, RunBefore)
-                or issubclass(argument.parameter_type, RunAfter)
-            )
+            if not is_run_restriction(argument.parameter_type, RunBefore, RunAfter)
         }
 
     def _get_mutating_stages(self) -> dict[StageClass, set[_StageArgument]]:
@@ -292,19 +291,13 @@ class StageBuilder:
 
         for stage in self._stages:
             for argument in self._stage_inputs[stage]:
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunBefore,
-                ):
+                if is_run_restriction(argument.parameter_type, RunBefore):
                     before_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(stage, before_stage),
                     )
 
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunAfter,
-                ):
+                if is_run_restriction(argument.parameter_type, RunAfter):
                     after_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(after_stage, stage),
diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 32041b8..fae8744 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -7,7 +7,14 @@ from collections import defaultdict
 from collections.abc import Generator
 from typing import Any, NamedTuple
 
-from instancespace.stages.stage import OUT, Stage, StageClass
+from instancespace.stages.stage import (
+    OUT,
+    RunAfter,
+    RunBefore,
+    Stage,
+    StageClass,
+    is_run_restriction,
+)
 
 StageScheduleElement = list[StageClass]
 
@@ -146,6 +153,15 @@ class StageRunner:
         raw_inputs = {}
 
         for input_name in input_arguments._fields:
+            if is_run_restriction(
+                input_arguments.__annotations__[input_name],
+                RunBefore,
+                RunAfter,
+            ):
+                # Only restricts the order, so the stage gets no value for it
+                raw_inputs[input_name] = None
+                continue
+
             # TODO: Some sort of type check on the inputs
             raw_inputs[input_name] = available_arguments[input_name]
 
@@ -243,11 +259,20 @@ class StageRunner:
 
         for schedule_element in stages:
             for stage in schedule_element:
-                if len(input_arguments[stage] - available_arguments) > 0:
+                missing_arguments = {
+                    argument
+                    for argument in input_arguments[stage] - available_arguments
+                    if not is_run_restriction(
+                        argument.parameter_type,
+                        RunBefore,
+                        RunAfter,
+                    )
+                }
+                if len(missing_arguments) > 0:
                     raise StageRunningError(
                         "Stage order was not runnable. Not all inputs were available "
                         + "for a stage at the time of running. Missing inputs: "
-                        + f"{list(input_arguments[stage] - available_arguments)}",
+                        + f"{list(missing_arguments)}",
                     )
 
             for stage in schedule_element:
diff --git a/instancespace/stages/stage.py b/instancespace/stages/stage.py
index 25611de..1668b4e 100644
--- a/instancespace/stages/stage.py
+++ b/instancespace/stages/stage.py
@@ -3,7 +3,7 @@
 from __future__ import annotations
 
 from abc import ABC, abstractmethod
-from typing import Any, Generic, NamedTuple, TypeVar
+from typing import Any, Generic, NamedTuple, TypeVar, get_origin
 
 IN = TypeVar("IN", bound=NamedTuple)
 OUT = TypeVar("OUT", bound=NamedTuple)
@@ -50,3 +50,13 @@ class RunBefore(Generic[T]):
 
 class RunAfter(Generic[T]):
     """Marks that a stage should be run after another stage."""
+
+
+def is_run_restriction(
+    parameter_type: Any,  # noqa: ANN401
+    *restrictions: type,
+) -> bool:
+    """Whether a parameter is one of the given restrictions, like RunBefore[Stage]."""
+    origin = get_origin(parameter_type) or parameter_type
+
+    return isinstance(origin, type) and issubclass(origin, restrictions)
-- 
2.43.0


From d656f5e1eb762fecb58358042d3483afa3a89374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 02/17] fix: run and rerun every stage on the outputs of the
 stages before it

Rolling back kept one shared dict, so a rerun stage saw its own or later
outputs, a failed run left half-applied state, data already returned changed
afterwards, and stages of one schedule element saw each others outputs in
set order.
---
 instancespace/stage_runner.py | 114 +++++++++++++---------------------
 1 file changed, 44 insertions(+), 70 deletions(-)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index fae8744..0708c79 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -3,7 +3,6 @@
 Is created by a StageBuilder.
 """
 from copy import deepcopy
-from collections import defaultdict
 from collections.abc import Generator
 from typing import Any, NamedTuple
 
@@ -40,11 +39,12 @@ class AnnotatedStageOutput(NamedTuple):
 class StageRunner:
     """A runner to run a list of stages."""
 
-    # Data output from stages that can be used as input for future stages. Saved
-    # at every stage schedule so you can rerun stages.
-    _schedule_output_data: list[dict[str, Any]]
+    # Arguments given at the start of the current run.
+    _initial_arguments: dict[str, Any]
 
-    _available_arguments: dict[str, Any]
+    # Data output from the stages ran so far, that can be used as input for future
+    # stages. Saved for every stage so you can rerun stages.
+    _stage_output_data: dict[StageClass, dict[str, Any]]
 
     # Cached index for when a stage is going to be ran, calculated in the constructor
     _stage_to_schedule_index: dict[StageClass, int]
@@ -52,9 +52,6 @@ class StageRunner:
     # List of stages to be ran
     _stage_order: list[StageScheduleElement]
 
-    _current_schedule_item: int
-    _stages_ran: defaultdict[StageClass, bool]
-
     @staticmethod
     def _debug_print(a: Any, do_print: bool) -> None:  # noqa: ANN401
         if do_print:
@@ -76,12 +73,9 @@ class StageRunner:
         """
         self._stage_order = stages
 
-        self._schedule_output_data = [{}]
-        self._current_schedule_item = 0
-
-        self._available_arguments = {}
+        self._initial_arguments = {}
+        self._stage_output_data = {}
         self._stage_to_schedule_index = {}
-        self._stages_ran = defaultdict(lambda: False)
 
         for i, schedule in enumerate(self._stage_order):
             for stage in schedule:
@@ -104,15 +98,13 @@ class StageRunner:
         ------
             Generator[AnnotatedStageOutput, None, dict[str, Any]]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._start_run(additional_arguments)
 
         for schedule in self._stage_order:
             for stage in schedule:
                 yield AnnotatedStageOutput(stage, self.run_stage(stage))
 
-        return self._available_arguments
+        return self._arguments_before_schedule_index(len(self._stage_order))
 
     def run_stage(
         self,
@@ -133,18 +125,19 @@ class StageRunner:
         StageRunner._debug_print("running " + stage.__name__, True)
         # Make sure stage can be ran
         stage_schedule_index = self._stage_to_schedule_index[stage]
-        if stage_schedule_index > self._current_schedule_item:
-            raise StageRunningError(
-                f"{stage} could not be ran, as prerequisite stages have not yet "
-                + "been ran",
-            )
-
-        # If running an earlier stage again, rollback any changes made after that stages
-        # schedule
-        if stage_schedule_index != self._current_schedule_item:
-            self._rollback_to_schedule_index(stage_schedule_index)
+        for schedule_element in self._stage_order[:stage_schedule_index]:
+            for prerequisite_stage in schedule_element:
+                if prerequisite_stage not in self._stage_output_data:
+                    raise StageRunningError(
+                        f"{stage} could not be ran, as prerequisite stages have not "
+                        + "yet been ran",
+                    )
 
-        available_arguments = self._available_arguments.copy()
+        # Stages in the same schedule element don't see each others outputs, as they
+        # can be ran in any order
+        available_arguments = self._arguments_before_schedule_index(
+            stage_schedule_index,
+        )
         for k, v in additional_arguments.items():
             available_arguments[k] = v
 
@@ -170,16 +163,15 @@ class StageRunner:
 
         outputs = stage._run(deepcopy(inputs))  # noqa: SLF001
 
-        for output_name, output_value in outputs._asdict().items():
-            self._available_arguments[output_name] = output_value
-
-        self._schedule_output_data[self._current_schedule_item] = (
-            self._available_arguments
-        )
-
-        self._stages_ran[stage] = True
-
-        self._progress_schedule()
+        # If running an earlier stage again, rollback any changes made after that stages
+        # schedule. Nothing is changed until the stage has finished.
+        stage_output_data = {
+            ran_stage: output_data
+            for ran_stage, output_data in self._stage_output_data.items()
+            if self._stage_to_schedule_index[ran_stage] <= stage_schedule_index
+        }
+        stage_output_data[stage] = outputs._asdict()
+        self._stage_output_data = stage_output_data
 
         return outputs
 
@@ -212,15 +204,13 @@ class StageRunner:
         -------
             tuple[Any]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._start_run(additional_arguments)
 
         for schedule in self._stage_order:
             for stage in schedule:
                 self.run_stage(stage)
 
-        return self._available_arguments
+        return self._arguments_before_schedule_index(len(self._stage_order))
 
     def run_until_stage(
         self,
@@ -233,9 +223,7 @@ class StageRunner:
         -------
             tuple[Any]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._start_run(additional_arguments)
 
         for schedule in self._stage_order:
             if stop_at_stage in schedule:
@@ -244,7 +232,7 @@ class StageRunner:
             for stage in schedule:
                 self.run_stage(stage)
 
-        return self._available_arguments
+        return self._arguments_before_schedule_index(len(self._stage_order))
 
         # TODO: Work out what this should return. Maybe just the dict of outputs?
 
@@ -278,32 +266,18 @@ class StageRunner:
             for stage in schedule_element:
                 available_arguments |= output_arguments[stage]
 
-    def _rollback_to_schedule_index(
+    def _start_run(self, initial_arguments: NamedTuple) -> None:
+        self._stage_output_data = {}
+        self._initial_arguments = initial_arguments._asdict()
+
+    def _arguments_before_schedule_index(
         self,
         index: int,
-    ) -> None:
-        self._current_schedule_item = index
-        self._available_arguments = self._schedule_output_data[index]
-
-        self._schedule_output_data = self._schedule_output_data[: index + 1]
+    ) -> dict[str, Any]:
+        available_arguments = self._initial_arguments.copy()
 
-        for schedule_element in self._stage_order[index + 1 :]:
+        for schedule_element in self._stage_order[:index]:
             for stage in schedule_element:
-                self._stages_ran[stage] = False
-
-    def _progress_schedule(self) -> None:
-        current_schedule_finished = True
-        for stage in self._stage_order[self._current_schedule_item]:
-            if not self._stages_ran[stage]:
-                current_schedule_finished = False
-                break
-
-        if current_schedule_finished:
-            self._schedule_output_data[self._current_schedule_item] = (
-                self._available_arguments
-            )
-
-            self._current_schedule_item += 1
+                available_arguments.update(self._stage_output_data.get(stage, {}))
 
-            if len(self._schedule_output_data) <= self._current_schedule_item:
-                self._schedule_output_data.append({})
+        return available_arguments
-- 
2.43.0


From 28c38cb0b154d52c9b4e176c7a404042aff6a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 03/17] fix: run_until_stage runs the specified stage too, as
 documented

---
 instancespace/stage_runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 0708c79..1ebf997 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -227,6 +227,7 @@ class StageRunner:
 
         for schedule in self._stage_order:
             if stop_at_stage in schedule:
+                self.run_stage(stop_at_stage)
                 break
 
             for stage in schedule:
-- 
2.43.0


From 18ed72979eccba79b23b14a49acc20a5803fa4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 04/17] fix: StageBuilder.build no longer adds stage outputs to
 the caller's set

---
 instancespace/stage_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index 828f49a..331ecf6 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -161,7 +161,7 @@ class StageBuilder:
 
         stage_order: list[StageScheduleElement] = []
 
-        available_inputs: set[_StageArgument] = initial_input_annotations
+        available_inputs: set[_StageArgument] = initial_input_annotations.copy()
 
         previous_resolved_stages: set[StageClass] | None = None
 
-- 
2.43.0


From 525ec1a7a2662677f5aac43475a007d79812f56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 05/17] fix: two outputs of one name at the same time are
 ambiguous whatever their types

---
 instancespace/stage_builder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index 331ecf6..21b2499 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -206,9 +206,13 @@ class StageBuilder:
             # Check for stages with the same output running at the same time
             for stage in stages_can_run_post_mutating_check:
                 for other_stage in stages_can_run_post_mutating_check - {stage}:
-                    shared_outputs = (
-                        self._stage_outputs[stage] & self._stage_outputs[other_stage]
-                    )
+                    shared_outputs = {
+                        argument.parameter_name
+                        for argument in self._stage_outputs[stage]
+                    } & {
+                        argument.parameter_name
+                        for argument in self._stage_outputs[other_stage]
+                    }
                     if len(shared_outputs) > 0:
                         raise StageResolutionError(
                             f"The order {stage} and {other_stage} run is ambiguous. "
-- 
2.43.0


From 3bb0871c8b242f032cafc64044a7d856655bde67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:04 +0000
Subject: [PATCH 06/17] fix: building an InstanceSpace again returns the new
 model, not the first one

---
 instancespace/instance_space.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/instance_space.py b/instancespace/instance_space.py
index 6c657de..3828ea5 100644
--- a/instancespace/instance_space.py
+++ b/instancespace/instance_space.py
@@ -236,6 +236,7 @@ class InstanceSpace:
             self.options,
         )
         self._final_output = self._runner.run_all(inputs)
+        self._model = None
 
         return self.model
 
-- 
2.43.0


From c8f81b2ba9ec5483793e726f6147350620d370a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 07/17] fix: report the features SIFTED selected as idx, so
 that saving a model works

---
 instancespace/stages/sifted.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 852ae08..f1df4d0 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -539,7 +539,6 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         opts = self.opts
 
         nfeats = x.shape[1]
-        idx = np.arange(nfeats)
         rng = np.random.default_rng(seed=0)
 
         # Prepare for Filter
@@ -578,7 +577,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 list(feat_labels),
                 selvars,
-                idx,
+                selvars,
                 None,
                 None,
                 None,
@@ -615,7 +614,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 None,
@@ -641,7 +640,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 None,
@@ -683,7 +682,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 silhouette_scores,
@@ -703,7 +702,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             s,
             [feat_labels[i] for i in selvars],
             selvars,
-            idx,
+            selvars,
             rho,
             pval,
             silhouette_scores,
-- 
2.43.0


From c0397f407c3cc5397bafaed29ca884c2e3e9f63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 08/17] fix: PRELIM outputs the labels of the instances it kept
 as inst_labels

---
 instancespace/stages/prelim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index d71f98f..91c9c0f 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -118,7 +118,7 @@ class PrelimOutput(NamedTuple):
     beta : NDArray[np.bool_]
         Binary array indicating selected features based on certain criteria
           (True if selected).
-    instlabels : pd.Series | None
+    inst_labels : pd.Series
         Labels for each instance in the dataset, if provided.
     data_dense : DataDense | None
         Dense data representation, if available, containing compressed or alternative
@@ -149,7 +149,7 @@ class PrelimOutput(NamedTuple):
     p: NDArray[np.int_]
     num_good_algos: NDArray[np.double]
     beta: NDArray[np.bool_]
-    instlabels: pd.Series | None  # type: ignore[type-arg]
+    inst_labels: pd.Series  # type: ignore[type-arg]
     data_dense: DataDense | None
     s: pd.Series | None  # type: ignore[type-arg]
 
-- 
2.43.0


From 58e750d00043014e8a609937c160a5fd5b4943ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:21 +0000
Subject: [PATCH 09/17] fix: saving to csv no longer renames columns of the
 model's own summaries

---
 instancespace/_serialisers.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 3c368b4..325961e 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -177,23 +177,18 @@ def save_instance_space_to_csv(
     )
 
     trace_summary = trace_out.summary.iloc[:, [0, 2, 4, 5, 7, 9, 10]]
-    trace_summary.rename(columns={"Algorithm": "Row"}, inplace=True)
-    trace_summary.to_csv(
+    trace_summary.rename(columns={"Algorithm": "Row"}).to_csv(
         output_directory / "footprint_performance.csv",
         index=False,
     )
 
     if pilot_out.summary is not None:
-        pilot_summary = pilot_out.summary
-        pilot_summary.rename(columns={0: "Row"}, inplace=True)
-        pilot_out.summary.to_csv(
+        pilot_out.summary.rename(columns={0: "Row"}).to_csv(
             output_directory / "projection_matrix.csv",
             index=False,
         )
 
-    pythia_summary = pythia_out.summary
-    pythia_summary.rename(columns={"Algorithms": "Row"}, inplace=True)
-    pythia_out.summary.to_csv(
+    pythia_out.summary.rename(columns={"Algorithms": "Row"}).to_csv(
         output_directory / "svm_table.csv",
         index=False,
     )
-- 
2.43.0


From 26a37d3e2d0f75bea6be3b1ff71198daed480cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:56 +0000
Subject: [PATCH 10/17] fix: saving graphs no longer clears or leaves behind
 the caller's pyplot figures

---
 instancespace/_serialisers.py | 42 +++++++++++------------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 325961e..91ee19a 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -9,6 +9,7 @@ import numpy as np
 import pandas as pd
 from matplotlib.axes import Axes
 from matplotlib.colors import Normalize
+from matplotlib.figure import Figure
 from numpy.typing import NDArray
 from scipy.io import savemat
 from shapely import MultiPolygon, Polygon
@@ -452,8 +453,8 @@ def _draw_sources(
     num_sources = len(source_labels)
 
     cmap = plt.colormaps["viridis"]
-    fig, ax2 = plt.subplots()
-    ax: Axes = ax2
+    fig = Figure()
+    ax: Axes = fig.subplots()
     ax.set_xlim((-5, 5))
     ax.set_ylim((-5, 5))
     fig.suptitle("Sources")
@@ -484,14 +485,12 @@ def _draw_scatter(
     title_label: str,
     output: Path,
 ) -> None:
-    plt.clf()
-
     upper_bound = np.max(x)
     lower_bound = np.min(x)
 
     cmap = plt.colormaps["viridis"]
-    fig, ax2 = plt.subplots()
-    ax: Axes = ax2
+    fig = Figure()
+    ax: Axes = fig.subplots()
     fig.suptitle(title_label, size=14)
 
     norm = Normalize(lower_bound, upper_bound)
@@ -511,8 +510,6 @@ def _draw_scatter(
 
     fig.savefig(output)
 
-    plt.close(fig)
-
 
 def _draw_portfolio_selections(
     z: NDArray[Any],
@@ -521,7 +518,6 @@ def _draw_portfolio_selections(
     title_label: str,
     output: Path,
 ) -> None:
-    plt.clf()
     upper_bound = np.ceil(np.max(z))
     lower_bound = np.floor(np.min(z))
     num_algorithms = len(algorithm_labels)
@@ -534,8 +530,8 @@ def _draw_portfolio_selections(
     is_worthy = np.sum(bsxfun_result, axis=0) != 0
 
     cmap = plt.colormaps["viridis"]
-    fig, ax2 = plt.subplots()
-    ax: Axes = ax2
+    fig = Figure()
+    ax: Axes = fig.subplots()
     ax.set_xlim((-5, 5))
     ax.set_ylim((-5, 5))
     fig.suptitle(title_label)
@@ -562,8 +558,6 @@ def _draw_portfolio_selections(
 
     fig.savefig(output)
 
-    plt.close(fig)
-
 
 def _draw_portfolio_footprint(
     z: NDArray[Any],
@@ -573,7 +567,6 @@ def _draw_portfolio_footprint(
     output: Path,
 ) -> None:
 
-    plt.clf()
     upper_bound = np.ceil(np.max(z))
     lower_bound = np.floor(np.min(z))
     num_algorithms = len(algorithm_labels)
@@ -584,8 +577,8 @@ def _draw_portfolio_footprint(
     is_worthy = np.sum(bsxfun_result, axis=0) != 0
 
     cmap = plt.colormaps["viridis"]
-    fig, ax2 = plt.subplots()
-    ax: Axes = ax2
+    fig = Figure()
+    ax: Axes = fig.subplots()
     ax.set_xlim((-5, 5))
     ax.set_ylim((-5, 5))
     fig.suptitle("Portfolio footprints")
@@ -614,8 +607,6 @@ def _draw_portfolio_footprint(
 
     fig.savefig(output)
 
-    plt.close(fig)
-
 
 def _draw_good_bad_footprint(
     z: NDArray[Any],
@@ -624,14 +615,13 @@ def _draw_good_bad_footprint(
     title_label: str,
     output: Path,
 ) -> None:
-    plt.clf()
     orange = (1.0, 0.6471, 0.0, 1.0)
     blue = (0.0, 0.0, 1.0, 1.0)
 
     # labels = ["GOOD", "BAD"]
 
-    fig, ax2 = plt.subplots()
-    ax: Axes = ax2
+    fig = Figure()
+    ax: Axes = fig.subplots()
     fig.suptitle(title_label)
     ax.set_xlim((-5, 5))
     ax.set_ylim((-5, 5))
@@ -651,8 +641,6 @@ def _draw_good_bad_footprint(
 
     fig.savefig(output)
 
-    plt.close(fig)
-
 
 def _draw_footprint(
     ax: Axes,
@@ -684,10 +672,8 @@ def _draw_binary_performance(
 
         # labels = ["GOOD", "BAD"]
 
-        plt.clf()
-
-        fig, ax2 = plt.subplots()
-        ax: Axes = ax2
+        fig = Figure()
+        ax: Axes = fig.subplots()
         fig.suptitle(title_label)
         ax.set_xlim((-5, 5))
         ax.set_ylim((-5, 5))
@@ -706,8 +692,6 @@ def _draw_binary_performance(
 
         fig.savefig(output)
 
-        plt.close(fig)
-
     except Exception:
         print("No binary performance has been calculated")
     fig.savefig(output)
-- 
2.43.0


From e432de8b0b627de8bd7f71687e650b7df76e9530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:57 +0000
Subject: [PATCH 11/17] fix: report metadata files that cannot be decoded like
 other unreadable files

---
 instancespace/data/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index ddc87c9..377033f 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -108,7 +108,7 @@ def from_csv_file(file_path: Path | str) -> Metadata | None:
 
     try:
         csv_df = pd.read_csv(file_path)
-    except (FileNotFoundError, OSError, pd.errors.ParserError) as e:
+    except (FileNotFoundError, OSError, UnicodeError, pd.errors.ParserError) as e:
         print(f"{file_path}: {e!s}")
         return None
     except pd.errors.EmptyDataError as err:
-- 
2.43.0


From e127ed191539c02972bc76973859c1afd2b67bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:38 +0000
Subject: [PATCH 12/17] fix: report options that are not JSON objects like
 other invalid options

---
 instancespace/data/options.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index 7926449..2b76f50 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -419,6 +419,9 @@ class InstanceSpaceOptions:
             If the JSON file contains undefined sub options.
 
         """
+        if not isinstance(file_contents, dict):
+            raise ValueError("The options in JSON are not an object")
+
         # Validate if the top-level fields match those in the InstanceSpaceOptions class
         options_fields = {f.name for f in fields(InstanceSpaceOptions)}
         extra_fields = set(file_contents.keys()) - options_fields
@@ -681,6 +684,9 @@ class InstanceSpaceOptions:
         if field_mapping is None:
             field_mapping = {}
 
+        if not isinstance(data, dict):
+            raise ValueError(f"{data_class.__name__} in JSON is not an object")
+
         # Get the default values for the dataclass fields
         default_values = {
             f.name: getattr(data_class.default(), f.name) for f in fields(data_class)
-- 
2.43.0


From e37865bf441db107271cb12614fe47ac1e76144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:19 +0000
Subject: [PATCH 13/17] fix: save_zip raises when it cannot list the output
 directory

---
 instancespace/model.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instancespace/model.py b/instancespace/model.py
index 3f2c88f..d68911c 100644
--- a/instancespace/model.py
+++ b/instancespace/model.py
@@ -156,6 +156,10 @@ class Model:
         if isinstance(output_directory, str):
             output_directory = Path(output_directory)
 
+        def raise_error(error: OSError) -> None:
+            # os.walk silently skips what it can't list unless it is given this.
+            raise error
+
         dir_name = DEFAULT_DIRECTARY_NAME
         ignored_files = [".gitignore", zip_filename]
         with zipfile.ZipFile(
@@ -163,7 +167,7 @@ class Model:
             "w",
             zipfile.ZIP_DEFLATED,
         ) as zf:
-            for root, _, files in os.walk(output_directory):
+            for root, _, files in os.walk(output_directory, onerror=raise_error):
                 for filename in files:
                     if filename in ignored_files:
                         continue
-- 
2.43.0


From de06ab19c89d112e0e223e9dec6927a3b07aa9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 14/17] fix: genetic selections in several threads no longer
 share one random state

---
 instancespace/stages/sifted.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index f1df4d0..ce005e2 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -39,6 +39,7 @@ sifted(x, y, y_bin, x_raw, y_raw, beta, num_good_algos, y_best, p,
     and performance optimization using provided datasets and configuration options.
 """
 
+import threading
 from typing import NamedTuple
 
 import numpy as np
@@ -62,6 +63,10 @@ from instancespace.stages.pilot import PilotStage
 from instancespace.stages.stage import Stage
 from instancespace.utils.filter import do_filter
 
+# pygad seeds and draws from the global random generators, so only one genetic selection
+# can run at a time
+_GENETIC_SELECTION_LOCK = threading.Lock()
+
 
 class NotEnoughFeatureError(Exception):
     """Raised when there is not enough feature to continue feature selection."""
@@ -653,7 +658,8 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         clust, _ = self.select_features_by_clustering(x_aux, rng)
 
-        x_aux, selvars = self._find_best_combination(x_aux, clust, selvars, rng)
+        with _GENETIC_SELECTION_LOCK:
+            x_aux, selvars = self._find_best_combination(x_aux, clust, selvars, rng)
 
         print(f"Bydensity value is : {bydensity}")
         # Run filter for small experiment
-- 
2.43.0


From 3ae65146b7c854a3124f9afad2c47a329a048656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:35 +0000
Subject: [PATCH 15/17] fix: the genetic selection gives the global random
 generators back as they were

---
 instancespace/stages/sifted.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index ce005e2..733155a 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -39,7 +39,10 @@ sifted(x, y, y_bin, x_raw, y_raw, beta, num_good_algos, y_best, p,
     and performance optimization using provided datasets and configuration options.
 """
 
+import random
 import threading
+from collections.abc import Generator
+from contextlib import contextmanager
 from typing import NamedTuple
 
 import numpy as np
@@ -68,6 +71,19 @@ from instancespace.utils.filter import do_filter
 _GENETIC_SELECTION_LOCK = threading.Lock()
 
 
+@contextmanager
+def _genetic_selection() -> Generator[None, None, None]:
+    """Wait for other genetic selections, and give back the generators' states."""
+    with _GENETIC_SELECTION_LOCK:
+        python_state = random.getstate()
+        numpy_state = np.random.get_state()  # noqa: NPY002
+        try:
+            yield
+        finally:
+            random.setstate(python_state)
+            np.random.set_state(numpy_state)  # noqa: NPY002
+
+
 class NotEnoughFeatureError(Exception):
     """Raised when there is not enough feature to continue feature selection."""
 
@@ -658,7 +674,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         clust, _ = self.select_features_by_clustering(x_aux, rng)
 
-        with _GENETIC_SELECTION_LOCK:
+        with _genetic_selection():
             x_aux, selvars = self._find_best_combination(x_aux, clust, selvars, rng)
 
         print(f"Bydensity value is : {bydensity}")
-- 
2.43.0


From 8631c899e9a8ec953362e1084a754ee1c610193d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:35 +0000
Subject: [PATCH 16/17] fix: PYTHIA no longer overwrites the performance matrix
 it is given

---
 instancespace/stages/pythia.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 1a80c62..7a52afe 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -817,7 +817,6 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         # This variable stores the performance of the selected algorithms
         y_svms = y.copy()
 
-        y[~sel0] = np.nan
         y_full[~sel1] = np.nan
         y_svms[~y_hat] = np.nan
 
-- 
2.43.0


From d5cac9d57245ab1dbb39b4346377c603d6b204ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:35 +0000
Subject: [PATCH 17/17] fix: PRELIM no longer replaces zeros in the performance
 matrix it is given

---
 instancespace/stages/prelim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 91c9c0f..3afe163 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -629,7 +629,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
                 msg = msg + "higher than " + str(prelim_opts.epsilon)
             else:
                 y_best[y_best == 0] = np.finfo(float).eps
-                y[y == 0] = np.finfo(float).eps
+                self.y = y = np.where(y == 0, np.finfo(float).eps, y)
                 y = 1 - y / y_best[:, np.newaxis]
                 y_bin = (1 - y_aux / y_best[:, np.newaxis]) <= prelim_opts.epsilon
                 msg = (
@@ -653,7 +653,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
                 msg = msg + "less than " + str(prelim_opts.epsilon)
             else:
                 y_best[y_best == 0] = np.finfo(float).eps
-                y[y == 0] = np.finfo(float).eps
+                self.y = y = np.where(y == 0, np.finfo(float).eps, y)
                 y = 1 - y_best[:, np.newaxis] / y
                 y_bin = (1 - y_best[:, np.newaxis] / y_aux) <= prelim_opts.epsilon
                 msg = (
-- 
2.43.0

