From 08824e500aff079ee0f9b770efd91c2fa73a4a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:03 +0000
Subject: [PATCH 01/23] fix: never overwrite the input project when the output
 path aliases or overlaps it

---
 paconvert/converter.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index c68ead4..6ce3b75 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -46,6 +46,10 @@ def listdir_nohidden(path):
             yield f
 
 
+def is_inside(path, directory):
+    return path != directory and os.path.commonpath([path, directory]) == directory
+
+
 class Converter:
     def __init__(
         self,
@@ -103,7 +107,11 @@ class Converter:
         else:
             out_dir = os.path.abspath(out_dir)
 
-        assert out_dir != in_dir, "--out_dir must be different from --in_dir"
+        self.in_root = os.path.realpath(in_dir)
+        self.out_root = os.path.realpath(out_dir)
+        assert (
+            self.out_root != self.in_root
+        ), "--out_dir must be different from --in_dir"
 
         if exclude:
             exclude = exclude.split(",")
@@ -124,6 +132,7 @@ class Converter:
             utils_file_helper = UtilsFileHelper(
                 out_dir + "/paddle_utils.py", is_dir_mode=True, logger=self.logger
             )
+            self.check_not_source(out_dir + "/paddle_utils.py")
 
         self.transfer_dir(in_dir, out_dir, exclude)
         utils_file_helper.write_code()
@@ -318,6 +327,21 @@ class Converter:
         except:
             pass
 
+    def check_not_source(self, path):
+        """Refuse to write to a path which belongs to the input"""
+        real_path = os.path.realpath(path)
+        is_source = real_path == self.in_root or is_inside(real_path, self.in_root)
+        if is_source and is_inside(self.out_root, self.in_root):
+            # what lies in an output directory inside the input is no source
+            if real_path == self.out_root:
+                is_source = os.path.isfile(real_path)
+            elif is_inside(real_path, self.out_root):
+                is_source = False
+        if is_source:
+            raise ValueError(
+                "refuse to overwrite the input with the output: {}".format(path)
+            )
+
     def transfer_dir(self, in_dir, out_dir, exclude):
         if os.path.isfile(in_dir):
             old_path = in_dir
@@ -330,9 +354,15 @@ class Converter:
                 new_path = os.path.join(out_dir, os.path.basename(old_path))
             else:
                 new_path = out_dir
+            self.check_not_source(new_path)
+            if os.path.exists(new_path) and os.path.samefile(old_path, new_path):
+                raise ValueError(
+                    "refuse to overwrite the input with the output: {}".format(new_path)
+                )
             if not os.path.exists(os.path.dirname(new_path)):
                 os.makedirs(os.path.dirname(new_path))
             if not os.path.isdir(os.path.dirname(new_path)):
+                self.check_not_source(os.path.dirname(new_path))
                 os.remove(os.path.dirname(new_path))
                 os.makedirs(os.path.dirname(new_path))
             self.transfer_file(old_path, new_path)
@@ -352,6 +382,7 @@ class Converter:
 
                 if os.path.isdir(old_path):
                     if not os.path.exists(new_path):
+                        self.check_not_source(new_path)
                         os.makedirs(new_path)
 
                 self.transfer_dir(old_path, new_path, exclude)
-- 
2.43.0


From eade8181a1ea4c1023b988be6d50df089d63ac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:03 +0000
Subject: [PATCH 02/23] fix: do not convert the output directory or follow link
 cycles without end

---
 paconvert/converter.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 6ce3b75..786bff3 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -134,6 +134,7 @@ class Converter:
             )
             self.check_not_source(out_dir + "/paddle_utils.py")
 
+        self.visiting_dirs = [self.in_root]
         self.transfer_dir(in_dir, out_dir, exclude)
         utils_file_helper.write_code()
 
@@ -381,11 +382,20 @@ class Converter:
                     continue
 
                 if os.path.isdir(old_path):
+                    # the output is no input, and a link to a parent has no end
+                    real_path = os.path.realpath(old_path)
+                    if real_path == self.out_root or real_path in self.visiting_dirs:
+                        continue
+
                     if not os.path.exists(new_path):
                         self.check_not_source(new_path)
                         os.makedirs(new_path)
 
-                self.transfer_dir(old_path, new_path, exclude)
+                    self.visiting_dirs.append(real_path)
+                    self.transfer_dir(old_path, new_path, exclude)
+                    self.visiting_dirs.pop()
+                else:
+                    self.transfer_dir(old_path, new_path, exclude)
         elif os.path.islink(in_dir):
             # may need to create link
             pass
-- 
2.43.0


From 620ada996a20be307e669e2232d6f0fbee101469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:00 +0000
Subject: [PATCH 03/23] fix: helper code of one conversion must not end up in
 another

---
 paconvert/utils.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/paconvert/utils.py b/paconvert/utils.py
index 99ab447..933a3a7 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -37,8 +37,8 @@ def get_unique_name(key):
 
 
 class UtilsFileHelper(object):
-    _instance = None
-    _lock = threading.Lock()
+    # one instance per thread, conversions of different threads share nothing
+    _local = threading.local()
 
     START_CONTENT = (
         "\n############################## 相关utils函数，如下 ##############################"
@@ -52,7 +52,9 @@ class UtilsFileHelper(object):
     )
 
     def __init__(self, fileName=None, is_dir_mode=False, logger=None):
-        if not hasattr(self, "initialized"):
+        # fileName is given at the start of a conversion, nothing of an earlier one
+        # may be left, no matter how it ended
+        if fileName or not hasattr(self, "initialized"):
             super().__init__()
             self.fileName = fileName
             self.is_dir_mode = is_dir_mode
@@ -61,10 +63,9 @@ class UtilsFileHelper(object):
             self.logger = logger
 
     def __new__(cls, fileName=None, is_dir_mode=False, logger=None):
-        if cls._instance is None:
-            with cls._lock:
-                cls._instance = super().__new__(cls)
-        return cls._instance
+        if not hasattr(cls._local, "instance"):
+            cls._local.instance = super().__new__(cls)
+        return cls._local.instance
 
     def _get_code_hash(self, code: str) -> int:
         base_hash = hash(code)
-- 
2.43.0


From 3505b3d34731d69c76e9b906af64f862cd6c57bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:00 +0000
Subject: [PATCH 04/23] fix: C++ extensions of one conversion must not be taken
 for those of another

---
 paconvert/api_matcher.py                      |  5 +--
 paconvert/converter.py                        |  2 +
 .../transformer/custom_op_transformer.py      | 38 ++++++++++++++-----
 3 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index d9baa11..606f7b7 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -21,7 +21,7 @@ import astor
 import textwrap
 
 from paconvert.base import BaseMatcher
-from paconvert.transformer.custom_op_transformer import CPP_EXTENSION_LIST  # noqa: F401
+from paconvert.transformer.custom_op_transformer import CUSTOM_OP_STATE
 from paconvert.utils import get_unique_name
 from paconvert.global_var import GlobalManager
 
@@ -4721,8 +4721,7 @@ class SetUpMatcher(BaseMatcher):
             return "misidentify"
 
         kwargs.pop("cmdclass")
-        global CPP_EXTENSION_LIST
-        CPP_EXTENSION_LIST.append(kwargs["name"].strip('"'))
+        CUSTOM_OP_STATE.cpp_extension_list.append(kwargs["name"].strip('"'))
         return ast.parse(
             "paddle.utils.cpp_extension.setup({})".format(self.kwargs_to_str(kwargs))
         )
diff --git a/paconvert/converter.py b/paconvert/converter.py
index 786bff3..7f94158 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -30,6 +30,7 @@ from paconvert.transformer.import_transformer import ImportTransformer
 from paconvert.transformer.custom_op_transformer import (
     PreCustomOpTransformer,
     CustomOpTransformer,
+    CUSTOM_OP_STATE,
 )
 from paconvert.utils import (
     UtilsFileHelper,
@@ -134,6 +135,7 @@ class Converter:
             )
             self.check_not_source(out_dir + "/paddle_utils.py")
 
+        CUSTOM_OP_STATE.reset()
         self.visiting_dirs = [self.in_root]
         self.transfer_dir(in_dir, out_dir, exclude)
         utils_file_helper.write_code()
diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index 673256e..88f2017 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -13,12 +13,24 @@
 # limitations under the License.
 
 import ast
+import threading
 
 from paconvert.base import BaseTransformer
 from paconvert.utils import log_debug, log_info
 
-CPP_EXTENSION_LIST = []
-AUTOGRAD_FUNC_NODES = {}
+
+class CustomOpState(threading.local):
+    """What is known of the project which this thread converts"""
+
+    def __init__(self):
+        self.reset()
+
+    def reset(self):
+        self.cpp_extension_list = []
+        self.autograd_func_nodes = {}
+
+
+CUSTOM_OP_STATE = CustomOpState()
 
 
 class PreCustomOpTransformer(BaseTransformer):
@@ -47,7 +59,7 @@ class PreCustomOpTransformer(BaseTransformer):
     def visit_Import(self, node):
         new_node_names = []
         for alias_node in node.names:
-            if alias_node.name in CPP_EXTENSION_LIST:
+            if alias_node.name in CUSTOM_OP_STATE.cpp_extension_list:
                 if alias_node.asname:
                     log_info(
                         self.logger,
@@ -108,7 +120,9 @@ class PreCustomOpTransformer(BaseTransformer):
                                     self.file_name,
                                     node.lineno,
                                 )
-                                AUTOGRAD_FUNC_NODES[self.node_stack[i]] = cpp_ext
+                                CUSTOM_OP_STATE.autograd_func_nodes[
+                                    self.node_stack[i]
+                                ] = cpp_ext
 
         for cpp_ext_load in self.cpp_ext_load_names:
             if isinstance(node.value, ast.Name) and cpp_ext_load == node.value.id:
@@ -135,9 +149,9 @@ class PreCustomOpTransformer(BaseTransformer):
                                     self.file_name,
                                     node.lineno,
                                 )
-                                AUTOGRAD_FUNC_NODES[self.node_stack[i]] = (
-                                    "load_" + cpp_ext_load
-                                )
+                                CUSTOM_OP_STATE.autograd_func_nodes[
+                                    self.node_stack[i]
+                                ] = ("load_" + cpp_ext_load)
 
         return node
 
@@ -169,7 +183,10 @@ class CustomOpTransformer(BaseTransformer):
         import_list = []
         for alias_node in node.names:
             remove = False
-            for autograd_func_node, cpp_ext in AUTOGRAD_FUNC_NODES.items():
+            for (
+                autograd_func_node,
+                cpp_ext,
+            ) in CUSTOM_OP_STATE.autograd_func_nodes.items():
                 if autograd_func_node.name == alias_node.name:
                     if alias_node.asname:
                         self.autograd_func_import_names[alias_node.asname] = cpp_ext
@@ -209,7 +226,10 @@ class CustomOpTransformer(BaseTransformer):
 
     def visit_ClassDef(self, node):
         super(CustomOpTransformer, self).generic_visit(node)
-        for autograd_func_node, cpp_ext in AUTOGRAD_FUNC_NODES.items():
+        for (
+            autograd_func_node,
+            cpp_ext,
+        ) in CUSTOM_OP_STATE.autograd_func_nodes.items():
             if autograd_func_node == node:
                 log_debug(
                     self.logger,
-- 
2.43.0


From 36773751cff7b477475dc9916c71ce1538680c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:00 +0000
Subject: [PATCH 05/23] fix: unique names must be unique across threads

---
 paconvert/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paconvert/utils.py b/paconvert/utils.py
index 933a3a7..f4de15e 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -22,10 +22,12 @@ import isort
 class UniqueNameGenerator:
     def __init__(self):
         self.ids = collections.defaultdict(int)
+        self.lock = threading.Lock()
 
     def __call__(self, key):
-        counter = self.ids[key]
-        self.ids[key] += 1
+        with self.lock:
+            counter = self.ids[key]
+            self.ids[key] += 1
         return "_".join([key, str(counter)])
 
 
-- 
2.43.0


From c220ed122a033e4d818fc54a22242e8ed74e50ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:00 +0000
Subject: [PATCH 06/23] fix: output must not depend on directory order or hash
 seed

---
 paconvert/converter.py                      | 4 +++-
 paconvert/transformer/import_transformer.py | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 7f94158..12ae3e5 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -42,7 +42,9 @@ from paconvert.global_var import GlobalManager
 
 
 def listdir_nohidden(path):
-    for f in os.listdir(path):
+    # the result must not depend on the order of the file system, setup.py goes first
+    # because it declares the C++ extensions of the project
+    for f in sorted(os.listdir(path), key=lambda f: (f != "setup.py", f)):
         if not f.startswith("."):
             yield f
 
diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 99a2084..5c213c8 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -507,12 +507,14 @@ class ImportTransformer(BaseTransformer):
         super(ImportTransformer, self).generic_visit(node)
         line_NO = 1
         paddle_package_list = []
-        for torch_package in self.imports_map[self.file]["torch_packages"]:
+        for torch_package in sorted(self.imports_map[self.file]["torch_packages"]):
             paddle_package_list.append(
                 GlobalManager.TORCH_PACKAGE_MAPPING[torch_package]
             )
 
-        for may_torch_package in self.imports_map[self.file]["may_torch_packages"]:
+        for may_torch_package in sorted(
+            self.imports_map[self.file]["may_torch_packages"]
+        ):
             paddle_package_list.append(may_torch_package)
 
         for paddle_package in paddle_package_list:
-- 
2.43.0


From 43c596e79305acdf260684e16d29b6d185b7b495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:00 +0000
Subject: [PATCH 07/23] fix: read files as UTF-8 whatever the locale is

---
 paconvert/global_var.py | 8 ++++----
 paconvert/utils.py      | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/paconvert/global_var.py b/paconvert/global_var.py
index e20c71e..e405e2e 100644
--- a/paconvert/global_var.py
+++ b/paconvert/global_var.py
@@ -19,19 +19,19 @@ import os
 
 class GlobalManager:
     json_file = os.path.dirname(__file__) + "/api_mapping.json"
-    with open(json_file, "r") as file:
+    with open(json_file, "r", encoding="UTF-8") as file:
         API_MAPPING = json.load(file)
 
     json_file = os.path.dirname(__file__) + "/api_wildcard_mapping.json"
-    with open(json_file, "r") as file:
+    with open(json_file, "r", encoding="UTF-8") as file:
         API_WILDCARD_MAPPING = json.load(file)
 
     json_file = os.path.dirname(__file__) + "/attribute_mapping.json"
-    with open(json_file, "r") as file:
+    with open(json_file, "r", encoding="UTF-8") as file:
         ATTRIBUTE_MAPPING = json.load(file)
 
     json_file = os.path.dirname(__file__) + "/api_alias_mapping.json"
-    with open(json_file, "r") as file:
+    with open(json_file, "r", encoding="UTF-8") as file:
         ALIAS_MAPPING = json.load(file)
 
     # used to replace import (means replace api by all)
diff --git a/paconvert/utils.py b/paconvert/utils.py
index f4de15e..ec0c4b7 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -155,7 +155,7 @@ class UtilsFileHelper(object):
 
         # insert the new code into the existing file
         if not self.is_dir_mode:
-            with open(self.fileName, "r") as f:
+            with open(self.fileName, "r", encoding="UTF-8") as f:
                 existing_content = f.read()
 
             # find a position to insert the new code
-- 
2.43.0


From 1a05baf068a119a63e36fffb2b6c9760d3d02dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:00 +0000
Subject: [PATCH 08/23] fix: measuring the speed must not fail on a coarse or
 adjusted clock

---
 paconvert/converter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 12ae3e5..3ffa4a5 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -100,7 +100,7 @@ class Converter:
         if self.calculate_speed:
             import time
 
-            start_time = time.time()
+            start_time = time.perf_counter()
 
         in_dir = os.path.abspath(in_dir)
         if out_dir is None:
@@ -305,9 +305,9 @@ class Converter:
                 )
 
         if self.calculate_speed:
-            end_time = time.time()
+            end_time = time.perf_counter()
             cost_time = end_time - start_time
-            speed = self.line_count / cost_time
+            speed = self.line_count / cost_time if cost_time > 0 else float("inf")
             log_info(
                 self.logger,
                 "\nThe total lines of code is {}, The total conversion time is {:.4f} s, Convert Speed is {:.4f} lines per second.\n".format(
-- 
2.43.0


From 535d70e1c70bdea43906d082bc0d021e7a5385c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:00 +0000
Subject: [PATCH 09/23] fix: a misidentified usage must not drop the other
 usages from the API table

---
 paconvert/transformer/basic_transformer.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/paconvert/transformer/basic_transformer.py b/paconvert/transformer/basic_transformer.py
index e804dfb..4f73a6a 100644
--- a/paconvert/transformer/basic_transformer.py
+++ b/paconvert/transformer/basic_transformer.py
@@ -169,7 +169,7 @@ class BasicTransformer(BaseTransformer):
                 elif paddle_api == "misidentify":
                     # This API usage indicate that is is not a Pytorch API
                     self.torch_api_count -= 1
-                    del self.all_api_map[torch_api]
+                    self.remove_api_record(torch_api)
                     log_debug(
                         self.logger,
                         " Misidentify {}".format(torch_api),
@@ -313,6 +313,11 @@ class BasicTransformer(BaseTransformer):
         # 3) Others
         return node
 
+    def remove_api_record(self, torch_api):
+        self.all_api_map[torch_api]["count"] -= 1
+        if self.all_api_map[torch_api]["count"] == 0:
+            del self.all_api_map[torch_api]
+
     def trans_class_attribute(self, node, torch_api, origin_attr):
         matcher = self.get_attribute_matcher(torch_api, origin_attr)
         if matcher:
@@ -344,7 +349,7 @@ class BasicTransformer(BaseTransformer):
             elif node_list == "misidentify":
                 # This API usage indicate that it is not this class attribute
                 self.torch_api_count -= 1
-                del self.all_api_map[torch_api]
+                self.remove_api_record(torch_api)
                 log_debug(
                     self.logger,
                     " Misidentify Class Attribute: {}".format(torch_api),
@@ -492,7 +497,7 @@ class BasicTransformer(BaseTransformer):
                 elif node_list == "misidentify":
                     # This API usage indicate that is is not a Pytorch API
                     self.torch_api_count -= 1
-                    del self.all_api_map[torch_api]
+                    self.remove_api_record(torch_api)
                     log_debug(
                         self.logger,
                         " Misidentify {}".format(torch_api),
@@ -693,7 +698,7 @@ class BasicTransformer(BaseTransformer):
                 return node
             elif node_list == "misidentify":
                 self.torch_api_count -= 1
-                del self.all_api_map[torch_api]
+                self.remove_api_record(torch_api)
                 # This API usage indicate that it is not this class method
                 log_debug(
                     self.logger,
-- 
2.43.0


From 31b632440a16f7ef492d6344abaef7f9494c6aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:00 +0000
Subject: [PATCH 10/23] fix: converting max and min must not change the shared
 mapping table

---
 paconvert/api_matcher.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paconvert/api_matcher.py b/paconvert/api_matcher.py
index 606f7b7..92310c4 100644
--- a/paconvert/api_matcher.py
+++ b/paconvert/api_matcher.py
@@ -1187,7 +1187,10 @@ class _MaxMinMatcherBase(BaseMatcher):
 
         # the case of two tensors
         if call_maximinimum:
-            self.api_mapping_dict["args_list"] = ["input", "other", "*", "out"]
+            # the mapping table is shared, do not change it
+            self.api_mapping_dict = dict(
+                self.api_mapping_dict, args_list=["input", "other", "*", "out"]
+            )
             new_kwargs = self.parse_args_and_kwargs(args, kwargs)
             new_kwargs["x"] = new_kwargs.pop("input")
             new_kwargs["y"] = new_kwargs.pop("other")
@@ -1203,7 +1206,6 @@ class _MaxMinMatcherBase(BaseMatcher):
             else:
                 code = f"{paddle_api}({self.kwargs_to_str(new_kwargs)})"
 
-            self.api_mapping_dict["args_list"] = ["input", "dim", "keepdim", "*", "out"]
             return ast.parse(code).body
 
         # the case of one tensor
-- 
2.43.0


From e9ee6bed73064b45d8fda586c06e173d23944269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:00 +0000
Subject: [PATCH 11/23] fix: do not swallow interrupts while inserting lines

---
 paconvert/base.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index a982469..fdd0512 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -112,10 +112,7 @@ class BaseTransformer(ast.NodeTransformer):
                         self.file_name,
                     )
                     for line in lines[::-1]:
-                        try:
-                            getattr(scope_node, body).insert(index, line)
-                        except:
-                            getattr(scope_node, body).insert(0, line)
+                        getattr(scope_node, body).insert(index, line)
 
     def record_scope(self, scope_body_index, node_list):
         if not isinstance(node_list, list):
-- 
2.43.0


From 964f1ee57ddc613dd62ddb7f338df87656668add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:00 +0000
Subject: [PATCH 12/23] fix: a report which cannot be exported must not make a
 finished conversion fail

---
 paconvert/converter.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 3ffa4a5..eca8193 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -163,13 +163,10 @@ class Converter:
                         "{:<80}{:<80}{:<8}".format(k, str(v["paddle_api"]), v["count"]),
                     )
 
-                import pandas
-
                 data = [(k, v["paddle_api"], v["count"]) for k, v in all_api_list]
-                df = pandas.DataFrame(
-                    data, columns=["PyTorch API", "Paddle API", "Count"]
+                self.export_excel(
+                    data, ["PyTorch API", "Paddle API", "Count"], "all_api_map.xlsx"
                 )
-                df.to_excel("all_api_map.xlsx", index=False)
 
         if self.show_unalign_api:
             log_info(self.logger, "\n===========================================")
@@ -202,13 +199,10 @@ class Converter:
                         "{:<80}{:<80}{:<8}".format(k, str(v["paddle_api"]), v["count"]),
                     )
 
-                import pandas
-
                 data = [(k, v["paddle_api"], v["count"]) for k, v in unalign_api_list]
-                df = pandas.DataFrame(
-                    data, columns=["PyTorch API", "Paddle API", "Count"]
+                self.export_excel(
+                    data, ["PyTorch API", "Paddle API", "Count"], "unalign_api_map.xlsx"
                 )
-                df.to_excel("unalign_api_map.xlsx", index=False)
 
         if self.show_unsupport_api:
             log_info(self.logger, "\n===========================================")
@@ -230,12 +224,9 @@ class Converter:
                 for k, v in unsupport_api_list:
                     log_info(self.logger, "{:<80}{:<8}".format(k, v))
 
-                import pandas
-
-                df = pandas.DataFrame(
-                    unsupport_api_list, columns=["PyTorch API", "Count"]
+                self.export_excel(
+                    unsupport_api_list, ["PyTorch API", "Count"], "unsupport_api_map.xlsx"
                 )
-                df.to_excel("unsupport_api_map.xlsx", index=False)
 
         faild_api_count = self.torch_api_count - self.success_api_count
         if not self.log_markdown:
@@ -332,6 +323,15 @@ class Converter:
         except:
             pass
 
+    def export_excel(self, data, columns, file):
+        # the conversion is done already, a failing report must not make it fail
+        try:
+            import pandas
+
+            pandas.DataFrame(data, columns=columns).to_excel(file, index=False)
+        except Exception as e:
+            log_warning(self.logger, "Skip {} due to error: {}".format(file, str(e)))
+
     def check_not_source(self, path):
         """Refuse to write to a path which belongs to the input"""
         real_path = os.path.realpath(path)
-- 
2.43.0


From c05eedf1d53cba5e5a525cf299921fe5de561694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:00 +0000
Subject: [PATCH 13/23] fix: keep the content of a project file named
 paddle_utils.py

---
 paconvert/converter.py | 6 +++++-
 paconvert/utils.py     | 7 ++++---
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index eca8193..27b6633 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -138,9 +138,12 @@ class Converter:
             self.check_not_source(out_dir + "/paddle_utils.py")
 
         CUSTOM_OP_STATE.reset()
+        self.new_files = set()
         self.visiting_dirs = [self.in_root]
         self.transfer_dir(in_dir, out_dir, exclude)
-        utils_file_helper.write_code()
+        utils_file_helper.write_code(
+            file_converted=utils_file_helper.fileName in self.new_files
+        )
 
         if self.show_all_api:
             log_info(self.logger, "\n===========================================")
@@ -371,6 +374,7 @@ class Converter:
                 os.remove(os.path.dirname(new_path))
                 os.makedirs(os.path.dirname(new_path))
             self.transfer_file(old_path, new_path)
+            self.new_files.add(new_path)
         elif os.path.isdir(in_dir):
             in_dir_item = listdir_nohidden(in_dir)
             for item in in_dir_item:
diff --git a/paconvert/utils.py b/paconvert/utils.py
index ec0c4b7..af68441 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -134,9 +134,10 @@ class UtilsFileHelper(object):
 
         return insert_idx
 
-    def write_code(self):
+    def write_code(self, file_converted=False):
         """
-        Write all the code in the code map to destination file
+        Write all the code in the code map to destination file, which is extended if
+        this conversion has written it already
         """
         if not self.fileName:
             return
@@ -154,7 +155,7 @@ class UtilsFileHelper(object):
         insert_code = "\n".join(code_lines)
 
         # insert the new code into the existing file
-        if not self.is_dir_mode:
+        if not self.is_dir_mode or file_converted:
             with open(self.fileName, "r", encoding="UTF-8") as f:
                 existing_content = f.read()
 
-- 
2.43.0


From b5f48c5b7831e3054b91fbf2aa0bace14a47abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:29 +0000
Subject: [PATCH 14/23] fix: list usages of C++ extensions, which are counted,
 in the API table

---
 paconvert/base.py                              | 6 ++++++
 paconvert/transformer/custom_op_transformer.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/paconvert/base.py b/paconvert/base.py
index fdd0512..c80b55d 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -114,6 +114,12 @@ class BaseTransformer(ast.NodeTransformer):
                     for line in lines[::-1]:
                         getattr(scope_node, body).insert(index, line)
 
+    def record_api(self, torch_api):
+        if torch_api not in self.all_api_map:
+            self.all_api_map[torch_api]["paddle_api"] = ""
+            self.all_api_map[torch_api]["count"] = 0
+        self.all_api_map[torch_api]["count"] += 1
+
     def record_scope(self, scope_body_index, node_list):
         if not isinstance(node_list, list):
             node_list = [node_list]
diff --git a/paconvert/transformer/custom_op_transformer.py b/paconvert/transformer/custom_op_transformer.py
index 88f2017..8f516a7 100644
--- a/paconvert/transformer/custom_op_transformer.py
+++ b/paconvert/transformer/custom_op_transformer.py
@@ -104,6 +104,7 @@ class PreCustomOpTransformer(BaseTransformer):
                             if "paddle.autograd.PyLayer" == self.get_full_attr(base):
                                 self.torch_api_count += 1
                                 self.success_api_count += 1
+                                self.record_api(self.get_full_attr(node))
                                 log_debug(
                                     self.logger,
                                     "Start convert usage of cpp extension in torch.autograd.Function: {} to Paddle --> ".format(
@@ -133,6 +134,7 @@ class PreCustomOpTransformer(BaseTransformer):
                             if "paddle.autograd.PyLayer" == self.get_full_attr(base):
                                 self.torch_api_count += 1
                                 self.success_api_count += 1
+                                self.record_api(self.get_full_attr(node))
                                 log_debug(
                                     self.logger,
                                     "Start convert usage of cpp extension in torch.autograd.Function: {} to Paddle --> ".format(
@@ -244,6 +246,7 @@ class CustomOpTransformer(BaseTransformer):
         for autograd_func_asname, cpp_ext in self.autograd_func_import_names.items():
             if f"{autograd_func_asname}.apply" == self.get_full_attr(node):
                 self.torch_api_count += 1
+                self.record_api(f"{autograd_func_asname}.apply")
                 log_debug(
                     self.logger,
                     "Start convert {} to Paddle --> ".format(
-- 
2.43.0


From a8b7a70d6292602919e3d2d9d4b2cfd9bce9b55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:52:16 +0000
Subject: [PATCH 15/23] fix: listing unaligned APIs must not fail on an aligned
 API of another package

---
 paconvert/converter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 27b6633..3b67c7e 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -180,7 +180,7 @@ class Converter:
             for k, v in self.all_api_map.items():
                 if not k.startswith("torch."):
                     unalign_api_map.pop(k)
-                if k in GlobalManager.CHANGE_PREFIX_API:
+                elif k in GlobalManager.CHANGE_PREFIX_API:
                     unalign_api_map.pop(k)
 
             if len(unalign_api_map) == 0:
-- 
2.43.0


From a9150b9df8a03737251b70d56d931f37023e2240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:13 +0000
Subject: [PATCH 16/23] fix: the grouping of imports must not depend on the
 working directory

---
 paconvert/converter.py | 3 ++-
 paconvert/utils.py     | 6 +++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 3b67c7e..f6ef873 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -33,6 +33,7 @@ from paconvert.transformer.custom_op_transformer import (
     CUSTOM_OP_STATE,
 )
 from paconvert.utils import (
+    ISORT_CONFIG,
     UtilsFileHelper,
     get_unique_name,
     log_info,
@@ -435,7 +436,7 @@ class Converter:
                     )
 
                 try:
-                    code = isort.code(code)
+                    code = isort.code(code, config=ISORT_CONFIG)
                 except Exception as e:
                     log_info(
                         self.logger,
diff --git a/paconvert/utils.py b/paconvert/utils.py
index af68441..81396c2 100644
--- a/paconvert/utils.py
+++ b/paconvert/utils.py
@@ -18,6 +18,10 @@ import threading
 
 import isort
 
+# modules found in the directory where the tool is started are no first party modules
+# of the code which is converted
+ISORT_CONFIG = isort.Config(src_paths=())
+
 
 class UniqueNameGenerator:
     def __init__(self):
@@ -177,7 +181,7 @@ class UtilsFileHelper(object):
 
         # remove redundant import
         try:
-            new_content = isort.code(new_content)
+            new_content = isort.code(new_content, config=ISORT_CONFIG)
         except Exception as e:
             log_info(
                 self.logger,
-- 
2.43.0


From 7b8fbc8c10cc099adee0f76d2751db06f533b665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:13 +0000
Subject: [PATCH 17/23] fix: keep the names after a module of the project in an
 import statement

---
 paconvert/transformer/import_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/transformer/import_transformer.py b/paconvert/transformer/import_transformer.py
index 5c213c8..8cf4f31 100644
--- a/paconvert/transformer/import_transformer.py
+++ b/paconvert/transformer/import_transformer.py
@@ -67,7 +67,7 @@ class ImportTransformer(BaseTransformer):
             if os.path.exists(import_path) or os.path.exists(import_path + ".py"):
                 self.insert_other_packages(self.imports_map, alias_node)
                 new_node_names.append(alias_node)
-                break
+                continue
 
             # 2. import from TORCH_PACKAGE_MAPPING (which means replace api one by one)
             for pkg_name in (
-- 
2.43.0


From 6be913e8d093edd81b3e2389d57fb776377da539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:13 +0000
Subject: [PATCH 18/23] fix: --separate_convert must not depend on the order of
 the file system

---
 paconvert/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paconvert/main.py b/paconvert/main.py
index e9e066a..bab4117 100644
--- a/paconvert/main.py
+++ b/paconvert/main.py
@@ -146,7 +146,7 @@ def main():
         convert_rate_map = {}
 
         in_dir = os.path.abspath(args.in_dir)
-        for project_name in os.listdir(in_dir):
+        for project_name in sorted(os.listdir(in_dir)):
             converter = Converter(
                 mode=args.mode,
                 log_dir=args.log_dir,
-- 
2.43.0


From 793cb20c7f40e40cb521f8d217d83774de00a326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:13 +0000
Subject: [PATCH 19/23] fix: --separate_convert must not fail when its report
 cannot be written

---
 paconvert/main.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/paconvert/main.py b/paconvert/main.py
index bab4117..dcbb0f8 100644
--- a/paconvert/main.py
+++ b/paconvert/main.py
@@ -189,10 +189,14 @@ def main():
                 project_num_90 / project_num,
             )
         )
-        import pandas
-
-        df = pandas.DataFrame.from_dict(dict(convert_rate_map), orient="index")
-        df.to_excel("convert_rate_map.xlsx")
+        # the conversion is done already, a failing report must not make it fail
+        try:
+            import pandas
+
+            df = pandas.DataFrame.from_dict(dict(convert_rate_map), orient="index")
+            df.to_excel("convert_rate_map.xlsx")
+        except Exception as e:
+            print("Skip convert_rate_map.xlsx due to error: {}".format(str(e)))
         return
 
     converter = Converter(
-- 
2.43.0


From c2b21e4cc132969d6decc74418ef28938de16f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:19 +0000
Subject: [PATCH 20/23] fix: do not delete a file that is in the way of the
 output file's directory

---
 paconvert/converter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index f6ef873..74edfb2 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -111,6 +111,7 @@ class Converter:
         else:
             out_dir = os.path.abspath(out_dir)
 
+        self.out_dir = out_dir
         self.in_root = os.path.realpath(in_dir)
         self.out_root = os.path.realpath(out_dir)
         assert (
@@ -371,6 +372,11 @@ class Converter:
             if not os.path.exists(os.path.dirname(new_path)):
                 os.makedirs(os.path.dirname(new_path))
             if not os.path.isdir(os.path.dirname(new_path)):
+                if self.out_dir == new_path:
+                    # the file in the way is no part of the output
+                    raise NotADirectoryError(
+                        "not a directory: {}".format(os.path.dirname(new_path))
+                    )
                 self.check_not_source(os.path.dirname(new_path))
                 os.remove(os.path.dirname(new_path))
                 os.makedirs(os.path.dirname(new_path))
-- 
2.43.0


From c982ad2ffea45e9e17b5194579cba1f88fb46186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:46 +0000
Subject: [PATCH 21/23] fix: fail when a directory is in the place of an output
 file instead of writing into it

---
 paconvert/converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index 74edfb2..c590a35 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -360,9 +360,10 @@ class Converter:
                     if re.search(pattern, old_path):
                         return
 
-            if os.path.isdir(out_dir):
+            if out_dir == self.out_dir and os.path.isdir(out_dir):
                 new_path = os.path.join(out_dir, os.path.basename(old_path))
             else:
+                # a directory in the place of an output file makes writing it fail
                 new_path = out_dir
             self.check_not_source(new_path)
             if os.path.exists(new_path) and os.path.samefile(old_path, new_path):
-- 
2.43.0


From 695d9ad09e4260f488847188bd6ca3a8cc4c2a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:42 +0000
Subject: [PATCH 22/23] fix: quote the output path in the code that makes the
 helper module importable

---
 paconvert/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paconvert/base.py b/paconvert/base.py
index c80b55d..a30b9c6 100644
--- a/paconvert/base.py
+++ b/paconvert/base.py
@@ -527,12 +527,14 @@ class BaseMatcher(object):
                 CODE_TEMPLATE = textwrap.dedent(
                     """
                     import sys
-                    sys.path.append(r'{}')
+                    sys.path.append({})
                     from paddle_utils import * # noqa: F403
                     """
                 )
                 # TODO: change sys.path.append to relative import
-                code = CODE_TEMPLATE.format(os.path.dirname(utils_file_helper.fileName))
+                code = CODE_TEMPLATE.format(
+                    repr(os.path.dirname(utils_file_helper.fileName))
+                )
                 self.transformer.insert_multi_node(ast.parse(code).body)
 
             utils_file_helper.add_code(utils_code)
-- 
2.43.0


From a7147e1772750e9e2d628d1c8cae6c7ea147a57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:55 +0000
Subject: [PATCH 23/23] fix: do not leave out a link that cannot be followed

---
 paconvert/converter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/paconvert/converter.py b/paconvert/converter.py
index c590a35..0f1945f 100644
--- a/paconvert/converter.py
+++ b/paconvert/converter.py
@@ -17,6 +17,7 @@
 
 import ast
 import collections
+import errno
 import logging
 import os
 import re
@@ -414,7 +415,12 @@ class Converter:
                     self.transfer_dir(old_path, new_path, exclude)
         elif os.path.islink(in_dir):
             # may need to create link
-            pass
+            try:
+                os.stat(in_dir)
+            except OSError as e:
+                # a link to nothing is left out, one that cannot be followed is not
+                if e.errno not in (errno.ENOENT, errno.ENOTDIR, errno.ELOOP):
+                    raise
         else:
             raise ValueError(" the input 'in_dir' must be a exist file or directory! ")
 
-- 
2.43.0

