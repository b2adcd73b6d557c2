From 4f15261068db026e2eae243f30a31b0cbfb3821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 01/32] fix: do not append the null variant to the caller's
 variant list

---
 variantlib/resolver/lib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index f966d22..a97e0ad 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -208,6 +208,7 @@ def sort_and_filter_supported_variants(
         namespace_priorities = []
 
     # Avoiding modification in place
+    vdescs = vdescs.copy()
     namespace_priorities = namespace_priorities.copy()
     supported_vprops = supported_vprops.copy()
 
-- 
2.43.0


From 30914eacd8405a47744850527adfcc081910aa78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 02/32] fix: leave the plugin loader unloaded when entering it
 fails

---
 variantlib/plugins/loader.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index b87987e..d239145 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -163,9 +163,12 @@ class BasePluginLoader:
             raise RuntimeError(
                 "Impossible to load plugins - `self._namespace_map` is not None"
             )
-        self._namespace_map = {}
+        # Assign only after everything was loaded successfully, so that a failed
+        # attempt does not leave the loader in the "loaded" state.
+        namespace_map: dict[str, VariantNamespace] = {}
 
         if not plugin_apis:
+            self._namespace_map = namespace_map
             return
 
         normalized_plugin_apis = []
@@ -190,13 +193,13 @@ class BasePluginLoader:
         ]
 
         for plugin_api, namespace in namespaces.items():
-            if namespace in self._namespace_map.values():
+            if namespace in namespace_map.values():
                 raise RuntimeError(
                     "Two plugins found using the same namespace "
                     f"{namespace}. Refusing to proceed."
                 )
 
-            self._namespace_map[plugin_api] = namespace
+            namespace_map[plugin_api] = namespace
             logger.info(
                 "Namespace %(namespace)s provided by plugin %(plugin_api)s",
                 {
@@ -205,6 +208,8 @@ class BasePluginLoader:
                 },
             )
 
+        self._namespace_map = namespace_map
+
     def _check_plugins_loaded(self) -> None:
         if self._namespace_map is None:
             raise NoPluginFoundError("No plugin has been loaded in the environment.")
-- 
2.43.0


From 8f580ec93a0ef06cc802a6a598abeab09ba8e0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 03/32] fix: do not share cached plugin results between Python
 interpreters

---
 variantlib/plugins/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index d239145..37b1a00 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -46,7 +46,7 @@ else:
 logger = logging.getLogger(__name__)
 
 
-VARIANT_PROVIDER_CACHE_TABLE: dict[int, dict[str, Any]] = {}
+VARIANT_PROVIDER_CACHE_TABLE: dict[tuple[Any, ...], dict[str, Any]] = {}
 
 
 class BasePluginLoader:
@@ -96,7 +96,7 @@ class BasePluginLoader:
         _commands = json.dumps(commands).encode("utf8")
         _args: tuple[str] = tuple(args)  # type: ignore[assignment]
 
-        cache_key = hash((_plugin_apis, _commands, _args))
+        cache_key = (self._python_executable, _plugin_apis, _commands, _args)
 
         with suppress(KeyError):
             return VARIANT_PROVIDER_CACHE_TABLE[cache_key]
-- 
2.43.0


From ae04073fe9651d44d392e1d4bb63ab19a39791f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 04/32] fix: do not share returned plugin configs with the
 cache or variant info

---
 variantlib/plugins/loader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 37b1a00..e0fad96 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import importlib
 import importlib.resources
 import json
@@ -99,14 +100,14 @@ class BasePluginLoader:
         cache_key = (self._python_executable, _plugin_apis, _commands, _args)
 
         with suppress(KeyError):
-            return VARIANT_PROVIDER_CACHE_TABLE[cache_key]
+            return copy.deepcopy(VARIANT_PROVIDER_CACHE_TABLE[cache_key])
 
         result = self._run_call_subprocess(
             plugin_apis=_plugin_apis,
             commands=_commands,
             args=_args,
         )
-        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = result
+        VARIANT_PROVIDER_CACHE_TABLE[cache_key] = copy.deepcopy(result)
         return result
 
     def _run_call_subprocess(
@@ -229,7 +230,9 @@ class BasePluginLoader:
             namespace: ProviderConfig(
                 namespace=namespace,
                 configs=[
-                    VariantFeatureConfig(name=name, values=values, multi_value=False)
+                    VariantFeatureConfig(
+                        name=name, values=list(values), multi_value=False
+                    )
                     for name, values in features.items()
                 ],
             )
-- 
2.43.0


From 6d08ce7ea862c5eb891eb2096506d84ce0a9841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 05/32] fix: make merging variants.json all-or-nothing and
 detect all conflicts

---
 variantlib/variants_json.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/variantlib/variants_json.py b/variantlib/variants_json.py
index 363eeb5..5f0bbe8 100644
--- a/variantlib/variants_json.py
+++ b/variantlib/variants_json.py
@@ -112,14 +112,20 @@ class VariantsJson(VariantInfo):
     def merge(self, variant_dist_info: Self) -> None:
         """Merge info from another wheel (VariantsJson instance)"""
 
-        # Merge the variant properties
-        self.variants.update(variant_dist_info.variants)
+        # Verify that labels do not get redefined
+        for label, vdesc in variant_dist_info.variants.items():
+            if self.variants.get(label, vdesc) != vdesc:
+                raise ValidationError(
+                    f"Inconsistency in variant {label!r} when merging variants. "
+                    f"Expected: {self.variants[label]!r}, found {vdesc!r}"
+                )
 
-        # Verify consistency of default priorities
+        # Verify consistency of default priorities and static properties
         for attribute in (
             "namespace_priorities",
             "feature_priorities",
             "property_priorities",
+            "static_properties",
         ):
             new_value = getattr(variant_dist_info, attribute)
             old_value = getattr(self, attribute)
@@ -154,6 +160,9 @@ class VariantsJson(VariantInfo):
                             f"Expected: {old!r}, found: {new!r}"
                         )
 
+        # Merge the variant properties, once everything is known to be consistent
+        self.variants.update(variant_dist_info.variants)
+
     def _get_expected_aot_namespaces(self) -> set[VariantNamespace]:
         return {
             namespace
-- 
2.43.0


From 0242094f00fe70318473d3a61ab52f5bf3a4502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 06/32] fix: process wheels in a fixed order when generating
 the index

---
 variantlib/commands/generate_index_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 6ead9ff..54ed9eb 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -46,7 +46,7 @@ def generate_index_json(args: list[str]) -> None:
         lambda: defaultdict(set)
     )
 
-    for wheel in directory.glob("*.whl"):
+    for wheel in sorted(directory.glob("*.whl")):
         # Skip non wheel variants
         if (wheel_info := VALIDATION_WHEEL_NAME_REGEX.fullmatch(wheel.name)) is None:
             logger.exception(
-- 
2.43.0


From ee64dfe41c28bb68ca70ed349dbce5c73dac1ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 07/32] fix: ignore unusable packages and versions when
 injecting abi_dependency

---
 variantlib/resolver/lib.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index a97e0ad..96d6689 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -6,8 +6,10 @@ import os
 from typing import TYPE_CHECKING
 
 from packaging.utils import canonicalize_name
+from packaging.version import InvalidVersion
 from packaging.version import Version
 
+from variantlib.constants import VALIDATION_FEATURE_NAME_REGEX
 from variantlib.constants import VARIANT_ABI_DEPENDENCY_NAMESPACE
 from variantlib.models.variant import VariantDescription
 from variantlib.models.variant import VariantFeature
@@ -35,6 +37,14 @@ def _normalize_package_name(name: str) -> str:
     return canonicalize_name(name).replace("-", "_")
 
 
+def _is_valid_package(name: str, version: str | None) -> bool:
+    try:
+        Version(version or "")
+    except InvalidVersion:
+        return False
+    return bool(VALIDATION_FEATURE_NAME_REGEX.fullmatch(_normalize_package_name(name)))
+
+
 def _generate_version_matches(version: str) -> Generator[str]:
     vspec = Version(version)
     yield f"{vspec.major}"
@@ -128,18 +138,23 @@ def inject_abi_dependency(
     """Inject supported vairants for the abi_dependency namespace"""
 
     # 1. Automatically populate from the current python environment
-    packages = {
-        _normalize_package_name(dist.name): dist.version
-        for dist in importlib.metadata.distributions()
-    }
+    packages: dict[str, str] = {}
+    for dist in importlib.metadata.distributions():
+        # Skip packages with broken metadata, they must not break the resolution.
+        if not dist.name or not _is_valid_package(dist.name, dist.version):
+            logger.debug(
+                "Package with invalid metadata ignored: `%(dist)s`", {"dist": dist}
+            )
+            continue
+        # The first distribution found on the path shadows the subsequent ones.
+        packages.setdefault(_normalize_package_name(dist.name), dist.version)
 
     # 2. Manually fed from environment variable
     #    Env Var Format: `VARIANT_ABI_DEPENDENCY=packageA==1.2.3,...,packageZ==7.8.9`
     if variant_abi_deps_env := os.environ.get("VARIANT_ABI_DEPENDENCY"):
         for pkg_spec in variant_abi_deps_env.split(","):
-            try:
-                pkg_name, pkg_version = pkg_spec.split("==", maxsplit=1)
-            except ValueError:
+            pkg_name, sep, pkg_version = pkg_spec.partition("==")
+            if not sep or not _is_valid_package(pkg_name, pkg_version):
                 logger.warning(
                     "`VARIANT_ABI_DEPENDENCY` received an invalid value "
                     "`%(pkg_spec)s`. It will be ignored.\n"
-- 
2.43.0


From d77bd8ca06530c15cd482fbb1f9bb8520477dcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:26 +0000
Subject: [PATCH 08/32] fix: consider abi_dependency when checking if a variant
 is supported

---
 variantlib/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/variantlib/api.py b/variantlib/api.py
index d1f887a..355dce4 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -22,6 +22,7 @@ from variantlib.models.variant import VariantValidationResult
 from variantlib.models.variant_info import VariantInfo
 from variantlib.plugins.loader import PluginLoader
 from variantlib.resolver.lib import filter_variants
+from variantlib.resolver.lib import inject_abi_dependency
 from variantlib.resolver.lib import sort_and_filter_supported_variants
 from variantlib.utils import aggregate_feature_priorities
 from variantlib.utils import aggregate_namespace_priorities
@@ -315,6 +316,7 @@ def check_variant_supported(
         )
 
     VariantConfiguration.get_config()
+    inject_abi_dependency(supported_vprops, [])
 
     return bool(
         list(
-- 
2.43.0


From ddda9368a001a9b8710199105a839197d723c37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:56 +0000
Subject: [PATCH 09/32] fix: do not let plugin output corrupt or replace the
 query results

---
 variantlib/plugins/_subprocess.py | 10 +++++++++-
 variantlib/plugins/loader.py      | 13 +++++++++----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/variantlib/plugins/_subprocess.py b/variantlib/plugins/_subprocess.py
index f8e91d0..2c06570 100644
--- a/variantlib/plugins/_subprocess.py
+++ b/variantlib/plugins/_subprocess.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import argparse
 import importlib
 import json
+import os
 import sys
 from dataclasses import dataclass
 from functools import reduce
@@ -88,6 +89,12 @@ def main() -> int:
     )
     args = parser.parse_args()
     commands = json.load(sys.stdin)
+
+    # Reserve the original stdout for our output, and redirect anything that plugins
+    # may be printing to stderr.
+    output_file = os.fdopen(os.dup(sys.stdout.fileno()), "w", encoding="utf-8")
+    os.dup2(sys.stderr.fileno(), sys.stdout.fileno())
+
     plugins = dict(zip(args.plugin_api, load_plugins(args.plugin_api), strict=True))
 
     if args.require_fixed:
@@ -132,7 +139,8 @@ def main() -> int:
         else:
             raise ValueError(f"Invalid command: {command}")
 
-    json.dump(retval, sys.stdout)
+    with output_file:
+        json.dump(retval, output_file)
 
     return 0
 
diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index e0fad96..3af2323 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -149,12 +149,17 @@ class BasePluginLoader:
                 check=False,
             )
 
+            stderr = process.stderr.decode("utf8", errors="replace")
             if process.returncode != 0:
-                raise PluginError(
-                    f"Plugin invocation failed:\n{process.stderr.decode('utf8')}"
-                )
+                raise PluginError(f"Plugin invocation failed:\n{stderr}")
 
-            return json.loads(process.stdout)  # type: ignore[no-any-return]
+            try:
+                return json.loads(process.stdout)  # type: ignore[no-any-return]
+            except ValueError as exc:
+                # e.g. plugin exited with a "success" status prematurely
+                raise PluginError(
+                    f"Plugin invocation did not yield valid output:\n{stderr}"
+                ) from exc
 
     @abstractmethod
     def _load_all_plugins(self) -> None: ...
-- 
2.43.0


From c3b9a0c1a05594e29d503fe57069cf0e785f2d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 10/32] fix: reject properties of AoT plugins that report no
 configs with ValidationError

---
 variantlib/api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/variantlib/api.py b/variantlib/api.py
index 355dce4..31773b0 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -261,9 +261,9 @@ def make_variant_dist_info(
         for vprop in vdesc.properties:
             if vprop.namespace not in build_namespaces:
                 continue
-            if vprop.value not in variant_json.static_properties[vprop.namespace].get(
-                vprop.feature, []
-            ):
+            if vprop.value not in variant_json.static_properties.get(
+                vprop.namespace, {}
+            ).get(vprop.feature, []):
                 raise ValidationError(
                     f"Property {vprop.to_str()!r} is not installable according to the "
                     "respective provider plugin, which is invalid for ahead-of-time "
-- 
2.43.0


From bd1ad7b647cf27549ff5a7f28c86a6d611ab29d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 11/32] fix: reject multiple values for single-value features
 in make-variant

---
 variantlib/commands/make_variant.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index e753993..3df54b1 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -227,6 +227,14 @@ def _make_variant(
                         "The following variant properties use namespaces that are not "
                         f"provided by any installed plugin: {unknown_str}"
                     )
+                if vdesc_valid.multi_value_violations:
+                    multi_value_str = ", ".join(
+                        sorted(x.to_str() for x in vdesc_valid.multi_value_violations)
+                    )
+                    raise ValidationError(
+                        "The following variant features do not permit multiple values "
+                        f"according to the plugins: {multi_value_str}"
+                    )
     else:
         # Create a null variant
         vdesc = VariantDescription()
-- 
2.43.0


From 509dab93af6c0b5833bc2abf30babc43ef93766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 12/32] fix: report unknown namespaces rather than KeyError in
 isolated make-variant

---
 variantlib/commands/make_variant.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 3df54b1..e25448e 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -193,7 +193,12 @@ def _make_variant(
                     try:
                         venv.install(
                             variant_info.get_provider_requires(
-                                {vprop.namespace for vprop in vdesc.properties}
+                                {
+                                    vprop.namespace
+                                    for vprop in vdesc.properties
+                                    # unknown namespaces are reported below
+                                    if vprop.namespace in variant_info.providers
+                                }
                             )
                         )
                     except CalledProcessError as err:
-- 
2.43.0


From 8e619dd99b80d5f397153e15b24422a4da590725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 13/32] fix: query AoT plugins in the isolated environment in
 make-variant

---
 variantlib/commands/make_variant.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index e25448e..77f5bfa 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -168,6 +168,8 @@ def _make_variant(
     if wheel_info is None:
         raise ValueError(f"{input_filepath.name!r} is not a valid wheel filename.")
 
+    dist_info_data: str | None = None
+
     if not is_null_variant:
         # Transform properties into a VariantDescription
         vdesc = VariantDescription(properties=properties)
@@ -240,11 +242,26 @@ def _make_variant(
                         "The following variant features do not permit multiple values "
                         f"according to the plugins: {multi_value_str}"
                     )
+
+                # Ahead-of-time plugins may be available only in the isolated
+                # environment, so the metadata must be created before leaving it.
+                dist_info_data = make_variant_dist_info(
+                    vdesc,
+                    variant_info=variant_info,
+                    variant_label=variant_label,
+                    venv_python_executable=venv.python_executable
+                    if venv is not None
+                    else None,
+                )
     else:
         # Create a null variant
         vdesc = VariantDescription()
 
     variant_label = get_variant_label(vdesc, variant_label)
+    if dist_info_data is None:
+        dist_info_data = make_variant_dist_info(
+            vdesc, variant_info=variant_info, variant_label=variant_label
+        )
 
     # Determine output wheel filename
     output_filepath = (
@@ -269,9 +286,6 @@ def _make_variant(
                     # First, add new dist-info file prior to RECORD (not strictly
                     # required, but a nice convention).
                     dist_info_path = f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
-                    dist_info_data = make_variant_dist_info(
-                        vdesc, variant_info=variant_info, variant_label=variant_label
-                    )
                     output_zip.writestr(dist_info_path, dist_info_data)
 
                     # Update RECORD for the new checksums.
-- 
2.43.0


From 3396717dad20e3e81aefbbe680ee916a535578b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:24 +0000
Subject: [PATCH 14/32] fix: parse RECORD as CSV, and do not append to an
 unterminated line

---
 variantlib/commands/make_variant.py   | 10 +++++++---
 variantlib/commands/unmake_variant.py |  6 +++---
 variantlib/commands/utils.py          |  7 +++++++
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 77f5bfa..4721a03 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -19,6 +19,7 @@ from variantlib.api import VariantProperty
 from variantlib.api import get_variant_label
 from variantlib.api import make_variant_dist_info
 from variantlib.api import validate_variant
+from variantlib.commands.utils import get_record_filename
 from variantlib.constants import VALIDATION_VARIANT_LABEL_REGEX
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
@@ -290,13 +291,16 @@ def _make_variant(
 
                     # Update RECORD for the new checksums.
                     with output_zip.open(file_info, "w") as output_file:
+                        new_line = b"\n"
                         for line in input_file:
-                            new_line = line
-                            rec_filename, _sha256, _size = line.split(b",")
                             # Skip existing hash for the discarded copy.
-                            if rec_filename.decode("utf-8") == dist_info_path:
+                            if get_record_filename(line) == dist_info_path:
                                 continue
+                            new_line = line
                             output_file.write(new_line)
+                        if not new_line.endswith(b"\n"):
+                            # Do not append to an unterminated line.
+                            output_file.write(b"\n")
 
                         # Write hash for the new files.
                         new_sha256 = base64.urlsafe_b64encode(
diff --git a/variantlib/commands/unmake_variant.py b/variantlib/commands/unmake_variant.py
index 5a85984..041300e 100644
--- a/variantlib/commands/unmake_variant.py
+++ b/variantlib/commands/unmake_variant.py
@@ -9,6 +9,7 @@ import shutil
 import zipfile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import get_record_filename
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 
@@ -108,10 +109,9 @@ def _unmake_variant(
                     # Update RECORD to remove the checksum.
                     variant_dist_info_path = (
                         f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
-                    ).encode()
+                    )
                     for line in input_file:
-                        rec_filename, _sha256, _size = line.split(b",")
-                        if rec_filename != variant_dist_info_path:
+                        if get_record_filename(line) != variant_dist_info_path:
                             output_file.write(line)
                 else:
                     shutil.copyfileobj(input_file, output_file)
diff --git a/variantlib/commands/utils.py b/variantlib/commands/utils.py
index 10826c7..85b297a 100644
--- a/variantlib/commands/utils.py
+++ b/variantlib/commands/utils.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import csv
 from importlib.metadata import EntryPoint
 from importlib.metadata import entry_points
 
@@ -12,3 +13,9 @@ def get_registered_commands(group: str) -> dict[str, EntryPoint]:
     for ep in entry_points().select(group=group):
         commands[ep.name] = ep
     return commands
+
+
+def get_record_filename(line: bytes) -> str | None:
+    """Get the filename from a line of wheel's RECORD file (None for blank lines)."""
+    row = next(csv.reader([line.decode("utf-8")]), None)
+    return row[0] if row else None
-- 
2.43.0


From 7e511651b4b887fb9ee32b23ee038d00133b39af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 15/32] fix: never leave partial wheels or destroy the input in
 (un)make-variant

---
 variantlib/commands/make_variant.py   |  4 +++-
 variantlib/commands/unmake_variant.py |  4 +++-
 variantlib/commands/utils.py          | 24 ++++++++++++++++++++++++
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 4721a03..9732194 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -19,6 +19,7 @@ from variantlib.api import VariantProperty
 from variantlib.api import get_variant_label
 from variantlib.api import make_variant_dist_info
 from variantlib.api import validate_variant
+from variantlib.commands.utils import atomic_output
 from variantlib.commands.utils import get_record_filename
 from variantlib.constants import VALIDATION_VARIANT_LABEL_REGEX
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
@@ -270,8 +271,9 @@ def _make_variant(
     )
 
     with (
+        atomic_output(output_filepath) as temp_filepath,
         zipfile.ZipFile(input_filepath, "r") as input_zip,
-        zipfile.ZipFile(output_filepath, "w") as output_zip,
+        zipfile.ZipFile(temp_filepath, "w") as output_zip,
     ):
         for file_info in input_zip.infolist():
             components = file_info.filename.split("/", 2)
diff --git a/variantlib/commands/unmake_variant.py b/variantlib/commands/unmake_variant.py
index 041300e..be77ac2 100644
--- a/variantlib/commands/unmake_variant.py
+++ b/variantlib/commands/unmake_variant.py
@@ -9,6 +9,7 @@ import shutil
 import zipfile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output
 from variantlib.commands.utils import get_record_filename
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
@@ -90,8 +91,9 @@ def _unmake_variant(
     output_filepath = output_directory / f"{wheel_info.group('base_wheel_name')}.whl"
 
     with (
+        atomic_output(output_filepath) as temp_filepath,
         zipfile.ZipFile(input_filepath, "r") as input_zip,
-        zipfile.ZipFile(output_filepath, "w") as output_zip,
+        zipfile.ZipFile(temp_filepath, "w") as output_zip,
     ):
         for file_info in input_zip.infolist():
             components = file_info.filename.split("/", 2)
diff --git a/variantlib/commands/utils.py b/variantlib/commands/utils.py
index 85b297a..e6ea9a0 100644
--- a/variantlib/commands/utils.py
+++ b/variantlib/commands/utils.py
@@ -3,8 +3,15 @@
 from __future__ import annotations
 
 import csv
+import os
+from contextlib import contextmanager
 from importlib.metadata import EntryPoint
 from importlib.metadata import entry_points
+from typing import TYPE_CHECKING
+
+if TYPE_CHECKING:
+    from collections.abc import Generator
+    from pathlib import Path
 
 
 def get_registered_commands(group: str) -> dict[str, EntryPoint]:
@@ -19,3 +26,20 @@ def get_record_filename(line: bytes) -> str | None:
     """Get the filename from a line of wheel's RECORD file (None for blank lines)."""
     row = next(csv.reader([line.decode("utf-8")]), None)
     return row[0] if row else None
+
+
+@contextmanager
+def atomic_output(path: Path) -> Generator[Path]:
+    """
+    Get a temporary path to write to, and move it to `path` only if writing succeeds.
+
+    This ensures that failures never leave partial output behind, and that
+    the inputs can be safely read even if `path` is one of them.
+    """
+    temp_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
+    try:
+        yield temp_path
+        temp_path.replace(path)
+    except BaseException:
+        temp_path.unlink(missing_ok=True)
+        raise
-- 
2.43.0


From a0c87e815961e51aa7a978c80fa023f16d21ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 16/32] fix: refuse to make a variant of a wheel without RECORD

---
 variantlib/commands/make_variant.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 9732194..fd4cb01 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -275,6 +275,7 @@ def _make_variant(
         zipfile.ZipFile(input_filepath, "r") as input_zip,
         zipfile.ZipFile(temp_filepath, "w") as output_zip,
     ):
+        record_found = False
         for file_info in input_zip.infolist():
             components = file_info.filename.split("/", 2)
             is_dist_info = len(components) == 2 and components[0].endswith(".dist-info")
@@ -286,6 +287,7 @@ def _make_variant(
 
             with input_zip.open(file_info, "r") as input_file:
                 if is_dist_info and components[1] == "RECORD":
+                    record_found = True
                     # First, add new dist-info file prior to RECORD (not strictly
                     # required, but a nice convention).
                     dist_info_path = f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
@@ -319,4 +321,9 @@ def _make_variant(
                     with output_zip.open(file_info, "w") as output_file:
                         shutil.copyfileobj(input_file, output_file)
 
+        if not record_found:
+            raise ValidationError(
+                f"{input_filepath.name!r} is not a valid wheel: no RECORD file found"
+            )
+
     logger.info("Variant Wheel Created: `%s`", output_filepath.resolve())
-- 
2.43.0


From 2b12350c6c3df1a3518dc2bff9735ff58218e2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 17/32] fix: remove static properties of providers deleted by
 update-pyproject-toml

---
 variantlib/commands/update_pyproject_toml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index 22aecc8..00567df 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -13,6 +13,7 @@ from variantlib.constants import VARIANT_INFO_NAMESPACE_KEY
 from variantlib.constants import VARIANT_INFO_PROVIDER_DATA_KEY
 from variantlib.constants import VARIANT_INFO_PROVIDER_PLUGIN_API_KEY
 from variantlib.constants import VARIANT_INFO_PROVIDER_REQUIRES_KEY
+from variantlib.constants import VARIANT_INFO_STATIC_PROPERTIES_KEY
 from variantlib.plugins.loader import EntryPointPluginLoader
 
 
@@ -69,6 +70,10 @@ def update_pyproject_toml(args: list[str]) -> None:
                 namespace_prio_key.remove(namespace)
             if namespace in provider_table:
                 del provider_table[namespace]
+            # Static properties are invalid without the respective provider.
+            static_table = variant_table.get(VARIANT_INFO_STATIC_PROPERTIES_KEY, {})
+            if namespace in static_table:
+                del static_table[namespace]
 
         for namespace in parsed_args.add:
             if namespace not in loader.namespaces:
-- 
2.43.0


From 8e1f534546a76f76c96477e2b57e4cdf76664f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 18/32] fix: keep properties of a single feature together when
 sorting

---
 variantlib/resolver/sorting.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/variantlib/resolver/sorting.py b/variantlib/resolver/sorting.py
index 1de41d8..9325989 100644
--- a/variantlib/resolver/sorting.py
+++ b/variantlib/resolver/sorting.py
@@ -140,11 +140,19 @@ def sort_variant_properties(
     )
 
     # 2. Reorder properties within a namespace according to feature priorities.
+    #    Features without explicit priority follow in the order they were first seen,
+    #    so that all properties of a single feature are kept together.
+    first_seen: dict[tuple[VariantNamespace, VariantFeatureName], int] = {}
+    for vprop in vprops:
+        first_seen.setdefault((vprop.namespace, vprop.feature), len(first_seen))
     sorted_by_feature = chain.from_iterable(
         [
             sorted(
                 namespace_properties,
-                key=lambda x: get_feature_priorities(x, feature_priorities),
+                key=lambda x: (
+                    get_feature_priorities(x, feature_priorities),
+                    first_seen[(x.namespace, x.feature)],
+                ),
             )
             for _, namespace_properties in groupby(
                 sorted_by_namespace, key=lambda x: x.namespace
-- 
2.43.0


From ef964a17e0e7adb79f6f9b13f626d46b4d77ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 19/32] fix: do not mix up different variants whose short
 hashes collide

---
 variantlib/api.py                | 8 +++++---
 variantlib/resolver/filtering.py | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/variantlib/api.py b/variantlib/api.py
index 31773b0..af30ae2 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -79,14 +79,16 @@ def get_variants_by_priority(
         )
 
     config = VariantConfiguration.get_config()
+    # Map by whole properties, since the (short) hashes may collide.
     label_map = {
-        vdesc.hexdigest: label for label, vdesc in variants_json.variants.items()
+        tuple(vdesc.properties): label
+        for label, vdesc in variants_json.variants.items()
     }
     # handle the implicit null variant
-    label_map.setdefault(VariantDescription([]).hexdigest, NULL_VARIANT_LABEL)
+    label_map.setdefault((), NULL_VARIANT_LABEL)
 
     return [
-        label_map[vdesc.hexdigest]
+        label_map[tuple(vdesc.properties)]
         for vdesc in sort_and_filter_supported_variants(
             list(variants_json.variants.values()),
             supported_vprops,
diff --git a/variantlib/resolver/filtering.py b/variantlib/resolver/filtering.py
index da77def..b693320 100644
--- a/variantlib/resolver/filtering.py
+++ b/variantlib/resolver/filtering.py
@@ -34,14 +34,16 @@ def remove_duplicates(
         """
         validate_type(vdesc, VariantDescription)
 
-        if vdesc.hexdigest in seen:
+        # Compare whole properties, since the (short) hashes may collide.
+        key = tuple(vdesc.properties)
+        if key in seen:
             logger.info(
                 "Variant `%(vhash)s` has been removed because it is a duplicate",
                 {"vhash": vdesc.hexdigest},
             )
             return False
 
-        seen.add(vdesc.hexdigest)
+        seen.add(key)
         return True
 
     yield from filter(_should_include, vdescs)
-- 
2.43.0


From 68e446ac06f1cec34112602ebabacf46eb379259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 20/32] fix: refuse plugins that provide a namespace other than
 the one they are listed for

---
 variantlib/plugins/loader.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 3af2323..399f02e 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -164,6 +164,15 @@ class BasePluginLoader:
     @abstractmethod
     def _load_all_plugins(self) -> None: ...
 
+    @staticmethod
+    def _normalize_plugin_api(plugin_api: str) -> str:
+        plugin_api_match = validate_matches_re(
+            plugin_api, VALIDATION_PROVIDER_PLUGIN_API_REGEX
+        )
+        import_name: str = plugin_api_match.group("module")
+        attr_path: str = plugin_api_match.group("attr") or ""
+        return f"{import_name}:{attr_path}"
+
     def _load_all_plugins_from_tuple(self, plugin_apis: list[str]) -> None:
         if self._namespace_map is not None:
             raise RuntimeError(
@@ -179,13 +188,8 @@ class BasePluginLoader:
 
         normalized_plugin_apis = []
         for plugin_api in plugin_apis:
-            plugin_api_match = validate_matches_re(
-                plugin_api, VALIDATION_PROVIDER_PLUGIN_API_REGEX
-            )
-            import_name: str = plugin_api_match.group("module")
-            attr_path: str = plugin_api_match.group("attr") or ""
             # normalize it before passing to the subprocess
-            normalized_plugin_apis.append(f"{import_name}:{attr_path}")
+            normalized_plugin_apis.append(self._normalize_plugin_api(plugin_api))
 
             logger.info(
                 "Loading plugin via %(plugin_api)s",
@@ -382,13 +386,24 @@ class PluginLoader(BasePluginLoader):
                 "Impossible to load plugins - `self._namespace_map` is not None"
             )
 
-        plugins = [
-            provider_data.object_reference
+        plugins = {
+            namespace: provider_data.object_reference
             for namespace, provider_data in self._variant_info.providers.items()
             if self._plugin_enabled(namespace, provider_data)
-        ]
+        }
 
-        self._load_all_plugins_from_tuple(plugin_apis=plugins)
+        self._load_all_plugins_from_tuple(plugin_apis=list(plugins.values()))
+
+        # Do not permit plugins to provide properties for other namespaces.
+        assert self._namespace_map is not None
+        for namespace, plugin_api in plugins.items():
+            provided = self._namespace_map[self._normalize_plugin_api(plugin_api)]
+            if provided != namespace:
+                self._namespace_map = None
+                raise PluginError(
+                    f"Plugin {plugin_api!r} listed for namespace {namespace!r} "
+                    f"provides namespace {provided!r} instead"
+                )
 
     def get_all_configs(
         self,
-- 
2.43.0


From 293eee98f4c8b2162abe393d8b31fe18930ea945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 21/32] fix: report unsortable variant descriptions with
 ValidationError

---
 variantlib/models/variant.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/variantlib/models/variant.py b/variantlib/models/variant.py
index ed79e9e..b39077a 100644
--- a/variantlib/models/variant.py
+++ b/variantlib/models/variant.py
@@ -175,7 +175,8 @@ class VariantDescription(BaseModel):
         # in a consistent manner.
         # Note: We have to execute this before validation to guarantee hash consistency.
 
-        with contextlib.suppress(AttributeError):
+        # Ill-typed data may not be sortable, leave reporting it to the validator.
+        with contextlib.suppress(AttributeError, TypeError):
             # Only "legal way" to modify a frozen dataclass attribute post init.
             object.__setattr__(self, "properties", sorted(self.properties))
 
-- 
2.43.0


From dfb77ecb4244b04402b2ae5ab53c66ec88bc6e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:09 +0000
Subject: [PATCH 22/32] fix: do not keep stale static properties of
 ahead-of-time plugins

When an ahead-of-time plugin supported nothing, make_variant_dist_info()
kept the static properties recorded earlier, and accepted (and recorded)
properties that the plugin does not support.
---
 variantlib/api.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/variantlib/api.py b/variantlib/api.py
index af30ae2..cf39f75 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -231,6 +231,12 @@ def make_variant_dist_info(
                 configs = plugin_loader.get_supported_configs(
                     require_fixed=True
                 ).values()
+                consulted_namespaces = plugin_loader.namespaces
+
+            # Previously recorded properties are no longer relevant, even if
+            # the plugin does not support anything now.
+            for namespace in consulted_namespaces:
+                variant_json.static_properties.pop(namespace, None)
 
             for config in configs:
                 if config.namespace not in build_namespaces:
-- 
2.43.0


From 48da19d45c631f2a6682fb372e84da6b88aa580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:44 +0000
Subject: [PATCH 23/32] fix: do not let one broken wheel prevent index
 generation

A damaged archive or malformed JSON metadata made generate-index-json
fail altogether, rather than skip and report the wheel as is done for
metadata that does not pass the validation.
---
 variantlib/commands/generate_index_json.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 54ed9eb..3dfb34c 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -85,7 +85,9 @@ def generate_index_json(args: list[str]) -> None:
                         {"wheel": wheel, "filename": VARIANT_DIST_INFO_FILENAME},
                     )
                     continue
-        except ValidationError as err:
+        except Exception as err:  # noqa: BLE001
+            # ValidationError, malformed JSON or any kind of damaged archive: do not
+            # let a single broken wheel prevent indexing the remaining wheels.
             logger.warning(
                 "%(wheel)s: %(err)s",
                 {
-- 
2.43.0


From e56bb700ef18a1530bf8cab0ebb0c7a9a1d5e079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:59 +0000
Subject: [PATCH 24/32] fix: reject empty configuration values of a wrong type

Values such as 'feature_priorities = []' or 'namespace_priorities = ""'
were silently treated as unset rather than rejected.
---
 variantlib/models/configuration.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/variantlib/models/configuration.py b/variantlib/models/configuration.py
index 8a2bc3a..38fb851 100644
--- a/variantlib/models/configuration.py
+++ b/variantlib/models/configuration.py
@@ -130,9 +130,13 @@ class VariantConfiguration(BaseModel):
         """
 
         return cls(
-            namespace_priorities=namespace_priorities or [],
-            feature_priorities=feature_priorities or {},
-            property_priorities=property_priorities or {},
+            namespace_priorities=[]
+            if namespace_priorities is None
+            else namespace_priorities,
+            feature_priorities={} if feature_priorities is None else feature_priorities,
+            property_priorities={}
+            if property_priorities is None
+            else property_priorities,
         )
 
     def to_dict(self) -> dict[str, Any]:
-- 
2.43.0


From 6e2de782dc18faa0d81c25f8c96e30a63d5bd1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:41 +0000
Subject: [PATCH 25/32] fix: do not write invalid requirements for plugins with
 local versions

---
 variantlib/commands/update_pyproject_toml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index 00567df..57dc2d6 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -89,7 +89,9 @@ def update_pyproject_toml(args: list[str]) -> None:
             namespace_table[VARIANT_INFO_PROVIDER_PLUGIN_API_KEY] = plugin_api
             default_requires = []
             if (dist := loader.plugin_provider_packages.get(plugin_api)) is not None:
-                default_requires.append(f"{dist.name} >={dist.version}")
+                # Local version labels are not permitted with `>=`.
+                version = dist.version.partition("+")[0]
+                default_requires.append(f"{dist.name} >={version}")
             namespace_table.setdefault(
                 VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires
             )
-- 
2.43.0


From 9c570d851c00f8c075f099b599c5cba2c524b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:41 +0000
Subject: [PATCH 26/32] fix: add usable references and requirements of
 module-level plugins to pyproject.toml

---
 variantlib/plugins/loader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 399f02e..69f1eb0 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -170,8 +170,8 @@ class BasePluginLoader:
             plugin_api, VALIDATION_PROVIDER_PLUGIN_API_REGEX
         )
         import_name: str = plugin_api_match.group("module")
-        attr_path: str = plugin_api_match.group("attr") or ""
-        return f"{import_name}:{attr_path}"
+        attr_path: str | None = plugin_api_match.group("attr")
+        return f"{import_name}:{attr_path}" if attr_path else import_name
 
     def _load_all_plugins_from_tuple(self, plugin_apis: list[str]) -> None:
         if self._namespace_map is not None:
@@ -447,7 +447,10 @@ class EntryPointPluginLoader(BasePluginLoader):
 
             plugin_apis.append(ep.value)
             if ep.dist is not None:
-                self._plugin_provider_packages[ep.value] = ep.dist
+                # Use the same form as in `plugin_api_values`.
+                self._plugin_provider_packages[
+                    self._normalize_plugin_api(ep.value)
+                ] = ep.dist
 
         self._load_all_plugins_from_tuple(plugin_apis=plugin_apis)
 
-- 
2.43.0


From a889851953d61d4349ad9f10f3b94b9582ca8cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:59 +0000
Subject: [PATCH 27/32] fix: update interleaved tables in pyproject.toml
 completely, and never write wrong data

---
 variantlib/commands/update_pyproject_toml.py | 123 ++++++++++++++-----
 1 file changed, 90 insertions(+), 33 deletions(-)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index 57dc2d6..85e9870 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -3,7 +3,10 @@ from __future__ import annotations
 import argparse
 import sys
 from pathlib import Path
+from typing import TYPE_CHECKING
+from typing import Any
 
+import tomlkit
 from tomlkit.toml_file import TOMLFile
 
 from variantlib import __package_name__
@@ -16,6 +19,72 @@ from variantlib.constants import VARIANT_INFO_PROVIDER_REQUIRES_KEY
 from variantlib.constants import VARIANT_INFO_STATIC_PROPERTIES_KEY
 from variantlib.plugins.loader import EntryPointPluginLoader
 
+if TYPE_CHECKING:
+    from collections.abc import Callable
+    from collections.abc import MutableMapping
+
+
+def _prepare(toml_data: MutableMapping[str, Any]) -> None:
+    """Add all relevant tables"""
+    variant_table = toml_data.setdefault(PYPROJECT_TOML_TOP_KEY, {})
+    # Note: setdefault() on a table that is interleaved with other tables does not
+    # return the item stored in the document, so it must not be modified afterwards.
+    variant_table.setdefault(
+        VARIANT_INFO_DEFAULT_PRIO_KEY, {VARIANT_INFO_NAMESPACE_KEY: []}
+    )
+    variant_table[VARIANT_INFO_DEFAULT_PRIO_KEY].setdefault(
+        VARIANT_INFO_NAMESPACE_KEY, []
+    )
+    variant_table.setdefault(VARIANT_INFO_PROVIDER_DATA_KEY, {})
+
+
+def _delete(toml_data: MutableMapping[str, Any], namespace: str) -> None:
+    """Delete all data of the namespace"""
+    variant_table = toml_data[PYPROJECT_TOML_TOP_KEY]
+    namespace_prio_key = variant_table[VARIANT_INFO_DEFAULT_PRIO_KEY][
+        VARIANT_INFO_NAMESPACE_KEY
+    ]
+    while namespace in namespace_prio_key:
+        namespace_prio_key.remove(namespace)
+
+    # Static properties are invalid without the respective provider.
+    for key in (VARIANT_INFO_PROVIDER_DATA_KEY, VARIANT_INFO_STATIC_PROPERTIES_KEY):
+        table = toml_data[PYPROJECT_TOML_TOP_KEY].get(key, {})
+        if namespace in table:
+            del table[namespace]
+            if not table and key == VARIANT_INFO_STATIC_PROPERTIES_KEY:
+                del toml_data[PYPROJECT_TOML_TOP_KEY][key]
+
+
+def _add(
+    toml_data: MutableMapping[str, Any],
+    namespace: str,
+    loader: EntryPointPluginLoader,
+) -> None:
+    """Add the namespace, or update its data"""
+    if namespace not in loader.namespaces:
+        raise RuntimeError(f"Plugin providing namespace `{namespace}` not installed.")
+
+    variant_table = toml_data[PYPROJECT_TOML_TOP_KEY]
+    namespace_prio_key = variant_table[VARIANT_INFO_DEFAULT_PRIO_KEY][
+        VARIANT_INFO_NAMESPACE_KEY
+    ]
+    if namespace not in namespace_prio_key:
+        namespace_prio_key.append(namespace)
+
+    provider_table = variant_table[VARIANT_INFO_PROVIDER_DATA_KEY]
+    namespace_table = provider_table.get(namespace, {})
+    plugin_api = loader.plugin_api_values[namespace]
+    namespace_table[VARIANT_INFO_PROVIDER_PLUGIN_API_KEY] = plugin_api
+    default_requires = []
+    if (dist := loader.plugin_provider_packages.get(plugin_api)) is not None:
+        # Local version labels are not permitted with `>=`.
+        version = dist.version.partition("+")[0]
+        default_requires.append(f"{dist.name} >={version}")
+    namespace_table.setdefault(VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires)
+    if namespace not in provider_table:
+        provider_table[namespace] = namespace_table
+
 
 def update_pyproject_toml(args: list[str]) -> None:
     parser = argparse.ArgumentParser(
@@ -58,43 +127,31 @@ def update_pyproject_toml(args: list[str]) -> None:
     except FileNotFoundError:
         parser.error(f"{str(parsed_args.file)!r} does not exist")
 
-    # prepare all relevant tables
-    variant_table = toml_data.setdefault(PYPROJECT_TOML_TOP_KEY, {})
-    default_prio_table = variant_table.setdefault(VARIANT_INFO_DEFAULT_PRIO_KEY, {})
-    namespace_prio_key = default_prio_table.setdefault(VARIANT_INFO_NAMESPACE_KEY, [])
-    provider_table = variant_table.setdefault(VARIANT_INFO_PROVIDER_DATA_KEY, {})
+    # tomlkit does not apply changes correctly to all kinds of tables, e.g. these using
+    # dotted keys. Apply them to plain data as well, in order to verify the result. Also
+    # parse the document again after every change, since the views of tables which are
+    # interleaved with other tables get stale.
+    expected = toml_data.unwrap()
+
+    def apply(change: Callable[..., None], *args: Any) -> None:
+        nonlocal toml_data
+        change(expected, *args)
+        change(toml_data, *args)
+        toml_data = tomlkit.parse(toml_data.as_string())
 
+    apply(_prepare)
     with EntryPointPluginLoader() as loader:
         for namespace in parsed_args.delete:
-            while namespace in namespace_prio_key:
-                namespace_prio_key.remove(namespace)
-            if namespace in provider_table:
-                del provider_table[namespace]
-            # Static properties are invalid without the respective provider.
-            static_table = variant_table.get(VARIANT_INFO_STATIC_PROPERTIES_KEY, {})
-            if namespace in static_table:
-                del static_table[namespace]
-
+            apply(_delete, namespace)
+            apply(_prepare)
         for namespace in parsed_args.add:
-            if namespace not in loader.namespaces:
-                raise RuntimeError(
-                    f"Plugin providing namespace `{namespace}` not installed."
-                )
-
-            if namespace not in namespace_prio_key:
-                namespace_prio_key.append(namespace)
-
-            namespace_table = provider_table.setdefault(namespace, {})
-            plugin_api = loader.plugin_api_values[namespace]
-            namespace_table[VARIANT_INFO_PROVIDER_PLUGIN_API_KEY] = plugin_api
-            default_requires = []
-            if (dist := loader.plugin_provider_packages.get(plugin_api)) is not None:
-                # Local version labels are not permitted with `>=`.
-                version = dist.version.partition("+")[0]
-                default_requires.append(f"{dist.name} >={version}")
-            namespace_table.setdefault(
-                VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires
-            )
+            apply(_add, namespace, loader)
+
+    if expected != toml_data.unwrap():
+        raise RuntimeError(
+            f"Unable to update {str(parsed_args.file)!r} correctly, please use separate "
+            f"tables inside the {PYPROJECT_TOML_TOP_KEY!r} table"
+        )
 
     toml_file.write(toml_data)
     sys.stdout.write(f"Wrote changes to {parsed_args.file}\n")
-- 
2.43.0


From 031a449d9dc82dd78d384be076295d15371d02a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:06 +0000
Subject: [PATCH 28/32] fix: do not fail on long output file names, keep links
 and permissions of replaced files

---
 variantlib/commands/utils.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/variantlib/commands/utils.py b/variantlib/commands/utils.py
index e6ea9a0..ada68e8 100644
--- a/variantlib/commands/utils.py
+++ b/variantlib/commands/utils.py
@@ -3,7 +3,8 @@
 from __future__ import annotations
 
 import csv
-import os
+import shutil
+import uuid
 from contextlib import contextmanager
 from importlib.metadata import EntryPoint
 from importlib.metadata import entry_points
@@ -36,9 +37,13 @@ def atomic_output(path: Path) -> Generator[Path]:
     This ensures that failures never leave partial output behind, and that
     the inputs can be safely read even if `path` is one of them.
     """
-    temp_path = path.with_name(f".{path.name}.{os.getpid()}.tmp")
+    # If it is a symbolic link, replace the file it points to.
+    path = path.resolve()
+    temp_path = path.with_name(f".variantlib-{uuid.uuid4().hex}.tmp")
     try:
         yield temp_path
+        if path.exists():
+            shutil.copymode(path, temp_path)
         temp_path.replace(path)
     except BaseException:
         temp_path.unlink(missing_ok=True)
-- 
2.43.0


From 9d357869e168f85f915b0d30a85fd60a3d939a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:51 +0000
Subject: [PATCH 29/32] fix: replace index documents and pyproject.toml only
 when written completely

---
 variantlib/commands/add_wheel_to_index_json.py | 4 +++-
 variantlib/commands/generate_index_json.py     | 4 +++-
 variantlib/commands/update_pyproject_toml.py   | 9 ++++++++-
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/variantlib/commands/add_wheel_to_index_json.py b/variantlib/commands/add_wheel_to_index_json.py
index 7cc12f1..4acbe86 100644
--- a/variantlib/commands/add_wheel_to_index_json.py
+++ b/variantlib/commands/add_wheel_to_index_json.py
@@ -7,6 +7,7 @@ import pathlib
 import zipfile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 from variantlib.errors import ValidationError
@@ -137,4 +138,5 @@ def add_wheel_to_index_json(args: list[str]) -> None:
             "to proceed."
         )
 
-    output_json_file.write_text(variant_json.to_str())
+    with atomic_output(output_json_file) as temp_path:
+        temp_path.write_text(variant_json.to_str())
diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 3dfb34c..d86f857 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -8,6 +8,7 @@ from collections import defaultdict
 from typing import TYPE_CHECKING
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output
 from variantlib.constants import VALIDATION_WHEEL_NAME_REGEX
 from variantlib.constants import VARIANT_DIST_INFO_FILENAME
 from variantlib.errors import ValidationError
@@ -124,4 +125,5 @@ def generate_index_json(args: list[str]) -> None:
 
     for namever, variants_json in output_files.items():
         path = directory / f"{namever}-variants.json"
-        path.write_text(variants_json.to_str())
+        with atomic_output(path) as temp_path:
+            temp_path.write_text(variants_json.to_str())
diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index 85e9870..a8b5a1b 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import argparse
+import shutil
 import sys
 from pathlib import Path
 from typing import TYPE_CHECKING
@@ -10,6 +11,7 @@ import tomlkit
 from tomlkit.toml_file import TOMLFile
 
 from variantlib import __package_name__
+from variantlib.commands.utils import atomic_output
 from variantlib.constants import PYPROJECT_TOML_TOP_KEY
 from variantlib.constants import VARIANT_INFO_DEFAULT_PRIO_KEY
 from variantlib.constants import VARIANT_INFO_NAMESPACE_KEY
@@ -153,5 +155,10 @@ def update_pyproject_toml(args: list[str]) -> None:
             f"tables inside the {PYPROJECT_TOML_TOP_KEY!r} table"
         )
 
-    toml_file.write(toml_data)
+    with atomic_output(parsed_args.file) as temp_path:
+        # Make a copy first, as TOMLFile takes line endings from the file it has read.
+        shutil.copyfile(parsed_args.file, temp_path)
+        temp_file = TOMLFile(temp_path)
+        temp_file.read()
+        temp_file.write(toml_data)
     sys.stdout.write(f"Wrote changes to {parsed_args.file}\n")
-- 
2.43.0


From f4de1c2b23cfa76768e77594387d0deb47f522d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:07 +0000
Subject: [PATCH 30/32] fix: do not hide top-level modules named loader from
 plugins

---
 variantlib/plugins/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 69f1eb0..96f7432 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -115,7 +115,7 @@ class BasePluginLoader:
     ) -> dict[str, Any]:
         with TemporaryDirectory(prefix="variantlib") as temp_dir:
             # Copy `variantlib/plugins/loader.py` into the temp_dir
-            script = Path(temp_dir) / "loader.py"
+            script = Path(temp_dir) / "_variantlib_loader.py"
             script.write_bytes(
                 (importlib.resources.files(__package__) / "_subprocess.py")
                 .read_bytes()
-- 
2.43.0


From 51c8733c14109d0c491058a0078264dcfa379361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:33 +0000
Subject: [PATCH 31/32] fix: read index documents as UTF-8 in every locale

---
 variantlib/commands/add_wheel_to_index_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/commands/add_wheel_to_index_json.py b/variantlib/commands/add_wheel_to_index_json.py
index 4acbe86..1122418 100644
--- a/variantlib/commands/add_wheel_to_index_json.py
+++ b/variantlib/commands/add_wheel_to_index_json.py
@@ -96,7 +96,7 @@ def add_wheel_to_index_json(args: list[str]) -> None:
     variant_json: None | VariantsJson = None
 
     if input_json_file is not None:
-        with input_json_file.open(mode="r") as f:
+        with input_json_file.open(mode="r", encoding="utf-8") as f:
             variant_json = VariantsJson(json.load(f))
 
     # ======================== Wheel Variant JSON Generation ======================== #
-- 
2.43.0


From 653797885d0d3d384ee5be36e0c28901f7f32fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:53 +0000
Subject: [PATCH 32/32] fix: query plugins when Python runs with a safe import
 path

---
 variantlib/plugins/_subprocess.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/variantlib/plugins/_subprocess.py b/variantlib/plugins/_subprocess.py
index 2c06570..222d444 100644
--- a/variantlib/plugins/_subprocess.py
+++ b/variantlib/plugins/_subprocess.py
@@ -10,6 +10,11 @@ from functools import reduce
 from typing import TYPE_CHECKING
 from typing import Any
 
+# The modules replacing variantlib are found next to the script, even if Python was
+# told not to import modules from there (e.g. via PYTHONSAFEPATH).
+if __name__ == "__main__" and getattr(sys.flags, "safe_path", False):
+    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
+
 # The following imports are replaced with temporary paths by the plugin
 # loader. We are using the original imports here to facilitate static
 # checkers and easier debugging.
-- 
2.43.0

