From d5b4e68e2649d7f0e4084fbe427fce6aac2d3eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:19 +0000
Subject: [PATCH 01/97] fix: leave an empty paradigm when its pardef ends

When every entry of the last pardef was masked out by the compilation
direction, the compiler stayed inside that paradigm and silently added all
entries of the following sections to it.
---
 lttoolbox/compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index df49609..22d8730 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -193,8 +193,8 @@ Compiler::procParDef()
     {
       paradigms[current_paradigm].minimize();
       paradigms[current_paradigm].joinFinals();
-      current_paradigm.clear();
     }
+    current_paradigm.clear();
   }
 }
 
-- 
2.43.0


From 759e57d17a7c4e00f4b9f1e9a96b6725c786deb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:19 +0000
Subject: [PATCH 02/97] fix: initialise the weight of entry tokens

Paradigm tokens never set it, yet linking a suffix paradigm uses it as the
weight of the connecting arc.
---
 lttoolbox/entry_token.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/entry_token.h b/lttoolbox/entry_token.h
index 0f82c80..cfc9bb6 100644
--- a/lttoolbox/entry_token.h
+++ b/lttoolbox/entry_token.h
@@ -47,7 +47,7 @@ private:
   /**
    * Weight value for the entry (default_weight if unspecified)
    */
-  double weight;
+  double weight = 0.0;
 
   /**
    * Left side of transduction (if 'single_transduction')
-- 
2.43.0


From c8758c74de373284258f0fef32bb7f52d08fe11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:17 +0000
Subject: [PATCH 03/97] fix: do not share arcs of different weights when
 inserting entries

---
 lttoolbox/transducer.cc | 51 +++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 20d5377..376af7e 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -70,42 +70,37 @@ Transducer::operator =(Transducer const &t)
 int
 Transducer::insertSingleTransduction(int const tag, int const source, double const weight)
 {
-  if(transitions.find(source) != transitions.end())
+  auto place = transitions.find(source);
+  if(place == transitions.end())
   {
-    if(transitions[source].count(tag) == 1)
-    {
-      auto range = transitions[source].equal_range(tag);
-      return range.first->second.first;
-    }
-    else if(transitions[source].count(tag) == 0)
+    return -1;
+  }
+
+  // reuse an arc only if it also carries the same weight; if there is
+  // another one, a local cycle must be ignored
+  bool local_cycle = false;
+  auto range = place->second.equal_range(tag);
+  for(; range.first != range.second; range.first++)
+  {
+    if(range.first->second.second != weight)
     {
-      // new state
-      int state = newState();
-      transitions[source].insert({tag, std::make_pair(state, weight)});
-      return state;
+      continue;
     }
-    else if(transitions[source].count(tag) == 2)
+    if(range.first->second.first != source)
     {
-      // there's a local cycle, must be ignored and treated like in '1'
-      auto range = transitions[source].equal_range(tag);
-      for(; range.first != range.second; range.first++)
-      {
-        if(range.first->second.first != source)
-        {
-          return range.first->second.first;
-        }
-      }
-      return -1;
-    }
-    else
-    {
-      return -1;
+      return range.first->second.first;
     }
+    local_cycle = true;
   }
-  else
+  if(local_cycle)
   {
-    return -1;
+    return source;
   }
+
+  // new state
+  int state = newState();
+  transitions[source].insert({tag, std::make_pair(state, weight)});
+  return state;
 }
 
 int
-- 
2.43.0


From 7c3e052ba3b7472e839117d250c47b2859262bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:12 +0000
Subject: [PATCH 04/97] fix: do not let a negated character class match the
 empty string

---
 lttoolbox/regexp_compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/regexp_compiler.cc b/lttoolbox/regexp_compiler.cc
index 18c7bee..b9f8ab0 100644
--- a/lttoolbox/regexp_compiler.cc
+++ b/lttoolbox/regexp_compiler.cc
@@ -341,7 +341,7 @@ RegexpCompiler::Esp()
     consume(']');
     Postop();
 
-    for(int i = 0; i < 256 ;i++)
+    for(int i = 1; i < 256 ;i++)
     {
       if(brackets.find(i) == brackets.end())
       {
-- 
2.43.0


From 7a7ae8adfe0f65e89bf55d4a59731eaf015da3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:12 +0000
Subject: [PATCH 05/97] fix: continue an inserted transducer from a state of
 its own

---
 lttoolbox/transducer.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 376af7e..fbacaa3 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -139,7 +139,12 @@ Transducer::insertTransducer(int const source, Transducer &t,
 
   transitions[source].insert({epsilon_tag, std::make_pair(relation[t.initial], default_weight)});
 
-  return relation[t.finals.begin()->first];
+  // the final state may have arcs of its own, so what is added after it
+  // must not start there
+  int state = newState();
+  transitions[relation[t.finals.begin()->first]].insert({epsilon_tag, std::make_pair(state, t.finals.begin()->second)});
+
+  return state;
 }
 
 void
-- 
2.43.0


From b505b9ae8f7a5b17510d0b55d9b831f06f7d0348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:50 +0000
Subject: [PATCH 06/97] fix: lt-expand keeps one-way entries across several
 paradigms, escapes the first character

---
 lttoolbox/expander.cc | 53 ++++++++++++-------------------------------
 1 file changed, 14 insertions(+), 39 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 3ead68c..a91cda1 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -92,7 +92,7 @@ Expander::readString(UString &result, UStringView name)
   {
     UString value = XMLParseUtil::readValue(reader);
     UString escaped = "^$/<>{}\\*@#+~:"_u;
-    for(size_t i = value.size()-1; i > 0; i--)
+    for(size_t i = value.size(); i-- > 0; )
     {
       if(escaped.find(value[i]) != UString::npos) {
         value.insert(value.begin()+i, '\\');
@@ -429,45 +429,20 @@ Expander::procEntry(UFILE* output)
         exit(EXIT_FAILURE);
       }
 
-      if(attribute == Compiler::COMPILER_RESTRICTION_LR_VAL)
-      {
-        if(paradigm[p].size() == 0 && paradigm_lr[p].size() == 0)
-        {
-          skip(name, Compiler::COMPILER_ENTRY_ELEM);
-          return;
-        }
-        EntList first = items_lr;
-        append(first, paradigm[p]);
-        append(items_lr, paradigm_lr[p]);
-        items_lr.insert(items_lr.end(), first.begin(), first.end());
-      }
-      else if(attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
-      {
-        if(paradigm[p].size() == 0 && paradigm_rl[p].size() == 0)
-        {
-          skip(name, Compiler::COMPILER_ENTRY_ELEM);
-          return;
-        }
-        EntList first = items_rl;
-        append(first, paradigm[p]);
-        append(items_rl, paradigm_rl[p]);
-        items_rl.insert(items_rl.end(), first.begin(), first.end());
-      }
-      else
-      {
-        if(paradigm_lr[p].size() > 0)
-        {
-          items_lr.insert(items_lr.end(), items.begin(), items.end());
-        }
-        if(paradigm_rl[p].size() > 0)
-        {
-          items_rl.insert(items_rl.end(), items.begin(), items.end());
-        }
+      // what was one-way stays one-way, and what was not becomes so where
+      // the paradigm is
+      EntList both_lr = items_lr, both_rl = items_rl;
+      append(both_lr, paradigm[p]);
+      append(both_rl, paradigm[p]);
 
-        append(items_lr, paradigm_lr[p]);
-        append(items_rl, paradigm_rl[p]);
-        append(items, paradigm[p]);
-      }
+      items_lr.insert(items_lr.end(), items.begin(), items.end());
+      items_rl.insert(items_rl.end(), items.begin(), items.end());
+      append(items_lr, paradigm_lr[p]);
+      append(items_rl, paradigm_rl[p]);
+      append(items, paradigm[p]);
+
+      items_lr.insert(items_lr.end(), both_lr.begin(), both_lr.end());
+      items_rl.insert(items_rl.end(), both_rl.begin(), both_rl.end());
     }
     else if(name == Compiler::COMPILER_ENTRY_ELEM && type == XML_READER_TYPE_END_ELEMENT)
     {
-- 
2.43.0


From 67d8baad2cdb38e3bcd760b762db13ccad4c0f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:50 +0000
Subject: [PATCH 07/97] fix: lt-expand accepts a paradigm without usable
 entries

---
 lttoolbox/expander.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index a91cda1..49a1bc2 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -61,6 +61,8 @@ Expander::procParDef()
   if(type != XML_READER_TYPE_END_ELEMENT)
   {
     current_paradigm = attrib(Compiler::COMPILER_N_ATTR);
+    // it is defined even if all its entries are filtered out
+    paradigm[current_paradigm];
   }
   else
   {
-- 
2.43.0


From 6beffc35397eb0e7ca5d0fcd7ad528390e0d9a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:48 +0000
Subject: [PATCH 08/97] fix: lt-expand lets alt, v, vl and vr list several
 values, like lt-comp

---
 lttoolbox/expander.cc | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 49a1bc2..4ee526c 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -17,6 +17,7 @@
 
 #include <lttoolbox/compiler.h>
 #include <lttoolbox/expander.h>
+#include <lttoolbox/string_utils.h>
 #include <lttoolbox/xml_parse_util.h>
 
 #include <cstdlib>
@@ -325,6 +326,24 @@ Expander::requireAttribute(UStringView value, UStringView attrname, UStringView
   }
 }
 
+// like lt-comp, let the attribute list several values
+static bool
+excludes(UStringView value, UStringView filter)
+{
+  if(value.empty())
+  {
+    return false;
+  }
+  for(auto& it : StringUtils::split(value, u" "))
+  {
+    if(it == filter)
+    {
+      return false;
+    }
+  }
+  return true;
+}
+
 void
 Expander::procEntry(UFILE* output)
 {
@@ -338,11 +357,11 @@ Expander::procEntry(UFILE* output)
 
   UString myname;
   if(this->attrib(Compiler::COMPILER_IGNORE_ATTR) == Compiler::COMPILER_IGNORE_YES_VAL
-   || (!altval.empty() && altval != alt)
-   || (!varval.empty() && varval != variant && attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
-   || ((!varl.empty() && varl != variant_left) && (!varr.empty() && varr != variant_right))
-   || (!varl.empty() && varl != variant_left && attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
-   || (!varr.empty() && varr != variant_right && attribute == Compiler::COMPILER_RESTRICTION_LR_VAL))
+   || (excludes(altval, alt))
+   || (excludes(varval, variant) && attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
+   || ((excludes(varl, variant_left)) && (excludes(varr, variant_right)))
+   || (excludes(varl, variant_left) && attribute == Compiler::COMPILER_RESTRICTION_RL_VAL)
+   || (excludes(varr, variant_right) && attribute == Compiler::COMPILER_RESTRICTION_LR_VAL))
   {
     do
     {
@@ -361,13 +380,13 @@ Expander::procEntry(UFILE* output)
 
   EntList items, items_lr, items_rl;
   if(attribute == Compiler::COMPILER_RESTRICTION_LR_VAL
-   || (!varval.empty() && varval != variant && attribute != Compiler::COMPILER_RESTRICTION_RL_VAL)
-   || (!varl.empty() && varl != variant_left))
+   || (excludes(varval, variant) && attribute != Compiler::COMPILER_RESTRICTION_RL_VAL)
+   || (excludes(varl, variant_left)))
   {
     items_lr.push_back(make_pair(""_u, ""_u));
   }
   else if(attribute == Compiler::COMPILER_RESTRICTION_RL_VAL
-        || (!varr.empty() && varr != variant_right))
+        || (excludes(varr, variant_right)))
   {
     items_rl.push_back(make_pair(""_u, ""_u));
   }
-- 
2.43.0


From d66db63c6e98f536bd65dbc735434649722d5385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:19 +0000
Subject: [PATCH 09/97] fix: do not fall back to the lowercased word in
 case-sensitive analysis

---
 lttoolbox/fst_processor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 7024e83..baaf422 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -724,6 +724,10 @@ FSTProcessor::compoundAnalysisOrLowering(UString input_cased) {
       return compound;
     }
   }
+  if(caseSensitive) {
+    UString nullString;
+    return nullString;
+  }
   // If we failed due to state explosion, we may try again with the lowercased string:
   UString input_lowered = StringUtils::tolower(input_cased);
   State current_state = initial_state;
-- 
2.43.0


From 143ce3b9f60716c53db0f8d1e7cc688dcae0758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:19 +0000
Subject: [PATCH 10/97] fix: analyse what is left after going back from the end
 of the input

---
 lttoolbox/fst_processor.cc | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index baaf422..9c5e45b 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1042,12 +1042,6 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         input_buffer.setPos(last);
         input_buffer.back(1);
       }
-      if(val == 0) {
-        if(!input_buffer.isEmpty()) {
-          input_buffer.setPos(last+1);
-        }
-      }
-
       current_state = initial_state;
       lf.clear();
       sf.clear();
@@ -1057,7 +1051,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       last_preblank = false;
     }
   }
-  while(val);
+  while(val || !input_buffer.isEmpty()); // at the end, we may have gone back to an earlier match
 
   // print remaining blanks
   flushBlanks(output);
-- 
2.43.0


From 60544df553632a7990eb5eb44d0b55d709bf9488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:19 +0000
Subject: [PATCH 11/97] fix: let the section type of the longest match decide
 about blanks

---
 lttoolbox/fst_processor.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 9c5e45b..d636d27 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -832,6 +832,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         }
         lf = filterFinals(current_state, sf);
         last_incond = true;
+        last_postblank = false;
+        last_preblank = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
@@ -842,7 +844,9 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
           current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
         }
         lf = filterFinals(current_state, sf);
+        last_incond = false;
         last_postblank = true;
+        last_preblank = false;
         last = input_buffer.getPos();
         last_size = sf.size();
       }
@@ -853,6 +857,8 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
           current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
         }
         lf = filterFinals(current_state, sf);
+        last_incond = false;
+        last_postblank = false;
         last_preblank = true;
         last = input_buffer.getPos();
         last_size = sf.size();
-- 
2.43.0


From 615a983c358fd1a214575e6f3ee268afe2fcb816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:37 +0000
Subject: [PATCH 12/97] fix: recase readings by code point, not by UTF-16 unit

---
 lttoolbox/fst_processor.cc |  8 +++++---
 lttoolbox/state.cc         | 11 +++++++++--
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index d636d27..d90ed80 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -467,9 +467,11 @@ FSTProcessor::filterFinals(const State& state, UStringView casefrom)
 {
   bool firstupper = false, uppercase = false;
   if (!dictionaryCase) {
-    firstupper = u_isupper(casefrom[0]);
-    uppercase = (casefrom.size() > 1 &&
-                 firstupper && u_isupper(casefrom[casefrom.size()-1]));
+    std::vector<int32_t> chars;
+    ustring_to_vec32(casefrom, chars);
+    firstupper = !chars.empty() && u_isupper(chars.front());
+    uppercase = (chars.size() > 1 &&
+                 firstupper && u_isupper(chars.back()));
   }
   return state.filterFinals(all_finals, alphabet, escaped_chars,
                             displayWeightsMode, maxAnalyses, maxWeightClasses,
diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 64ac197..0e8ed33 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -531,9 +531,16 @@ State::filterFinalsArray(std::vector<UString>& result,
       cost += step.second;
     }
     if (it.dirty && firstupper) {
-      int loc = firstchar;
+      size_t loc = firstchar;
       if (temp[loc] == '~') loc++; // skip post-generation mark
-      temp[loc] = u_toupper(temp[loc]);
+      if (loc < temp.size()) {
+        size_t end = loc;
+        UChar32 c;
+        U16_NEXT(temp, end, temp.size(), c);
+        UString upper;
+        upper += u_toupper(c);
+        temp.replace(loc, end - loc, upper);
+      }
     }
     response.push_back({temp, cost});
   }
-- 
2.43.0


From 51037977684d170086644cf48ee89f3f59f709ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:26 +0000
Subject: [PATCH 13/97] fix: do not loop on entries starting with whitespace,
 print whole characters

---
 lttoolbox/fst_processor.cc | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index d90ed80..01c606f 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -886,16 +886,6 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         }
       }
     }
-    else if(sf.empty() && u_isspace(val))
-    {
-      lf = "/*"_u;
-      lf.append(sf);
-      last_postblank = false;
-      last_preblank = false;
-      last_incond = false;
-      last = input_buffer.getPos();
-      last_size = sf.size();
-    }
 
     if(useRestoreChars && rcx_map.find(val) != rcx_map.end())
     {
@@ -1003,7 +993,9 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         if(limit.i_codepoint == 0)
         {
           input_buffer.setPos(1 + last_start);
-          writeEscaped(sf.substr(0,1), output);
+          UChar32 first;
+          U16_GET(sf, 0, 0, sf.size(), first);
+          printChar(first, output);
         }
         else
         {
@@ -1026,7 +1018,9 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         if(limit.i_codepoint == 0)
         {
           input_buffer.setPos(1 + last_start);
-          writeEscaped(sf.substr(0,1), output);
+          UChar32 first;
+          U16_GET(sf, 0, 0, sf.size(), first);
+          printChar(first, output);
         }
         else
         {
-- 
2.43.0


From 6bac4296106a1a2f801092bc1b8dcaa57beddb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:26 +0000
Subject: [PATCH 14/97] fix: print queued blanks only in place of the spaces
 they stand for

---
 lttoolbox/fst_processor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 01c606f..327cccf 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -596,7 +596,7 @@ FSTProcessor::printSpace(UChar32 val, UFILE *output)
 void
 FSTProcessor::printChar(UChar32 val, UFILE* output)
 {
-  if (u_isspace(val)) {
+  if (val == ' ') { // the only space that is queued
     if (blankqueue.size() > 0) {
       write(blankqueue.front(), output);
       blankqueue.pop();
-- 
2.43.0


From d9956cb34b75969b524d2358b880f6ef244f2634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:26 +0000
Subject: [PATCH 15/97] fix: queue a blank for escaped spaces in analysis

---
 lttoolbox/fst_processor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 327cccf..0d710a5 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -226,6 +226,9 @@ FSTProcessor::readAnalysis(InputFile& input)
 
       case '\\':
         val = input.get();
+        if(val == ' ') {
+          blankqueue.push(" "_u);
+        }
         input_buffer.add(static_cast<int32_t>(val));
         return val;
 
-- 
2.43.0


From 1f95f543f1ee5b31a3034edb8c1b93525a27f47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:49 +0000
Subject: [PATCH 16/97] fix: notice the end of the input after an ignored
 character

---
 lttoolbox/fst_processor.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 0d710a5..9ccadbf 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -185,6 +185,11 @@ FSTProcessor::readAnalysis(InputFile& input)
   }
 
   UChar32 val = input.get();
+  while ((useIgnoredChars || useDefaultIgnoredChars) && ignored_chars.find(val) != ignored_chars.end())
+  {
+    val = input.get();
+  }
+
   int32_t altval = 0;
   if(input.eof())
   {
@@ -194,11 +199,6 @@ FSTProcessor::readAnalysis(InputFile& input)
     val = 0;
   }
 
-  while ((useIgnoredChars || useDefaultIgnoredChars) && ignored_chars.find(val) != ignored_chars.end())
-  {
-    val = input.get();
-  }
-
   if(escaped_chars.find(val) != escaped_chars.end())
   {
     switch(val)
-- 
2.43.0


From a5cdf3bf8f93a51ea74edfaa3577daf608144b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:12 +0000
Subject: [PATCH 17/97] fix: ignore matches whose readings are all
 compound-only

---
 lttoolbox/fst_processor.cc | 64 ++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 9ccadbf..62b1cfe 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -835,12 +835,16 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         {
           current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
         }
-        lf = filterFinals(current_state, sf);
-        last_incond = true;
-        last_postblank = false;
-        last_preblank = false;
-        last = input_buffer.getPos();
-        last_size = sf.size();
+        UString found = filterFinals(current_state, sf);
+        if(!found.empty())
+        {
+          lf = found;
+          last_incond = true;
+          last_postblank = false;
+          last_preblank = false;
+          last = input_buffer.getPos();
+          last_size = sf.size();
+        }
       }
       else if(current_state.isFinal(postblank))
       {
@@ -848,12 +852,16 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         {
           current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
         }
-        lf = filterFinals(current_state, sf);
-        last_incond = false;
-        last_postblank = true;
-        last_preblank = false;
-        last = input_buffer.getPos();
-        last_size = sf.size();
+        UString found = filterFinals(current_state, sf);
+        if(!found.empty())
+        {
+          lf = found;
+          last_incond = false;
+          last_postblank = true;
+          last_preblank = false;
+          last = input_buffer.getPos();
+          last_size = sf.size();
+        }
       }
       else if(current_state.isFinal(preblank))
       {
@@ -861,12 +869,16 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         {
           current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
         }
-        lf = filterFinals(current_state, sf);
-        last_incond = false;
-        last_postblank = false;
-        last_preblank = true;
-        last = input_buffer.getPos();
-        last_size = sf.size();
+        UString found = filterFinals(current_state, sf);
+        if(!found.empty())
+        {
+          lf = found;
+          last_incond = false;
+          last_postblank = false;
+          last_preblank = true;
+          last = input_buffer.getPos();
+          last_size = sf.size();
+        }
       }
       else if(!isAlphabetic(val))
       {
@@ -874,12 +886,16 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
         {
           current_state.pruneStatesWithForbiddenSymbol(compoundOnlyLSymbol);
         }
-        lf = filterFinals(current_state, sf);
-        last_postblank = false;
-        last_preblank = false;
-        last_incond = false;
-        last = input_buffer.getPos();
-        last_size = sf.size();
+        UString found = filterFinals(current_state, sf);
+        if(!found.empty())
+        {
+          lf = found;
+          last_postblank = false;
+          last_preblank = false;
+          last_incond = false;
+          last = input_buffer.getPos();
+          last_size = sf.size();
+        }
       }
       else { // isAlphabetic, standard type section
         // Record if a compound might be possible
-- 
2.43.0


From 5bbcd53ecaa5bfa00857cef68f492319cc6cddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:12 +0000
Subject: [PATCH 18/97] fix: look up compounds and lowercased words by code
 point

---
 lttoolbox/fst_processor.cc | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 62b1cfe..e887b40 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -689,22 +689,24 @@ FSTProcessor::compoundAnalysis(UString input_word)
 
   State current_state = initial_state;
 
-  for(unsigned int i=0; i<input_word.size(); i++)
+  std::vector<int32_t> symbols;
+  ustring_to_vec32(input_word, symbols);
+  for(unsigned int i=0; i<symbols.size(); i++)
   {
-    UChar val=input_word[i];
+    UChar32 val=symbols[i];
 
     current_state.step_case(val, beCaseSensitive(current_state));
 
     if(current_state.size() > MAX_COMBINATIONS)
     {
       std::cerr << "Warning: compoundAnalysis's MAX_COMBINATIONS exceeded for '" << input_word << "'" << std::endl;
-      std::cerr << "         gave up at char " << i << " '" << val << "'." << std::endl;
+      std::cerr << "         gave up at char " << i << "." << std::endl;
 
       UString nullString;
       return  nullString;
     }
 
-    if(i < input_word.size()-1)
+    if(i < symbols.size()-1)
     {
       current_state.restartFinals(all_finals, compoundOnlyLSymbol, &initial_state, '+');
     }
@@ -736,8 +738,10 @@ FSTProcessor::compoundAnalysisOrLowering(UString input_cased) {
   // If we failed due to state explosion, we may try again with the lowercased string:
   UString input_lowered = StringUtils::tolower(input_cased);
   State current_state = initial_state;
-  for(unsigned int i=0; i<input_lowered.size(); i++) {
-    current_state.step_case(input_lowered[i], beCaseSensitive(current_state));
+  std::vector<int32_t> symbols;
+  ustring_to_vec32(input_lowered, symbols);
+  for(auto& symbol : symbols) {
+    current_state.step_case(symbol, beCaseSensitive(current_state));
     if(current_state.size()==0) {
       break;
     }
@@ -950,12 +954,14 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
           && last_size <= lastBlank(sf)) {
         int oldval = val;
         UString oldsf = sf;
+        size_t num_read = 0;
         do {
           alphabet.getSymbol(sf, val);
+          num_read++;
         } while ((val = readAnalysis(input)) && isAlphabetic(val));
         lf_spcmp = compoundAnalysis(sf);
         if(lf_spcmp.empty()) {  // didn't work, rewind!
-          input_buffer.back(sf.size() - oldsf.size());
+          input_buffer.back(num_read);
           val = oldval;
           sf.swap(oldsf);
         }
-- 
2.43.0


From 166fccc928f948509a6d5c240c69f07d8e0e477a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:31 +0000
Subject: [PATCH 19/97] fix: count distinct analyses and weight classes for -N
 and -L

---
 lttoolbox/state.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 0e8ed33..b6ee380 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -490,17 +490,23 @@ State::NFinals(std::vector<std::pair<UString, double>> lf, int maxAnalyses, int
 
   sort(lf.begin(), lf.end(), sort_weights<UString, double>());
 
+  sorted_vector<UString> seen;
+  double last_weight = 0.0000;
   for(auto it = lf.begin(); it != lf.end(); it++)
   {
-    double last_weight = 0.0000;
-    if(maxAnalyses > 0 && maxWeightClasses > 0)
+    if(!seen.insert(it->first).second)
+    {
+      continue; // the same analysis with a worse weight
+    }
+    if(result.empty() || last_weight != it->second)
+    {
+      maxWeightClasses--;
+      last_weight = it->second;
+    }
+    if(maxAnalyses > 0 && maxWeightClasses >= 0)
     {
       result.push_back({it->first, it->second});
       maxAnalyses--;
-      if(last_weight!=it->second)
-      {
-        maxWeightClasses--;
-      }
     }
     else break;
   }
-- 
2.43.0


From 26278d21fa0d6621bac9eca91a6740f8b86cdf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:30 +0000
Subject: [PATCH 20/97] fix: do not overflow the buffer for printed weights

---
 lttoolbox/state.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index b6ee380..5c76c9a 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -559,9 +559,8 @@ State::filterFinalsArray(std::vector<UString>& result,
     if (!seen.insert(it.first).second) continue;
     result.push_back(it.first);
     if (display_weights) {
-      UChar w[16]{};
-      // if anyone wants a weight of 10000, this will not be enough
-      u_sprintf(w, "<W:%f>", it.second);
+      UChar w[400]{}; // enough for any double
+      u_snprintf(w, 399, "<W:%f>", it.second);
       result.back() += w;
     }
   }
-- 
2.43.0


From a46f6d05a3b00d162ddbcabd7f696eaacd39c29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:15 +0000
Subject: [PATCH 21/97] fix: keep the weight of empty arcs in lookups

---
 lttoolbox/state.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 5c76c9a..51ee771 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -296,7 +296,7 @@ State::epsilonClosure()
       {
         auto tmp = new_sequence();
         *tmp = *(state[i].sequence);
-        if(it2->second.out_tag[j] != 0)
+        if(it2->second.out_tag[j] != 0 || it2->second.out_weight[j] != 0)
         {
           tmp->push_back({it2->second.out_tag[j], it2->second.out_weight[j]});
         }
-- 
2.43.0


From 1d8f98346c1bc98c3a32a072e1b76149908ed655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 22/97] fix: keep parallel arcs of different weights when
 linking states

---
 lttoolbox/transducer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index fbacaa3..1469a6a 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -159,7 +159,7 @@ Transducer::linkStates(int const source, int const target,
     auto range = transitions[source].equal_range(tag);
     for(;range.first != range.second; range.first++)
     {
-      if(range.first->first == tag && range.first->second.first == target)
+      if(range.first->second.first == target && range.first->second.second == weight)
       {
         return;
       }
-- 
2.43.0


From b468ffef8a3e8af3d730f0b827c2d94900ef473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 23/97] fix: keep the weight of final states when minimising

---
 lttoolbox/transducer.cc | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 1469a6a..09696a7 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -21,6 +21,7 @@
 #include <lttoolbox/deserialiser.h>
 #include <lttoolbox/serialiser.h>
 
+#include <algorithm>
 #include <cstdlib>
 #include <iostream>
 #include <vector>
@@ -323,11 +324,6 @@ Transducer::determinize(int const epsilon_tag)
   int initial_prime = 0;
   std::map<int, double> finals_prime;
 
-  if(isFinal(initial))
-  {
-    finals_prime.insert({0, default_weight});
-  }
-
   int t = 0;
 
   sorted_vector<int> finals_state;
@@ -343,12 +339,13 @@ Transducer::determinize(int const epsilon_tag)
     for(auto& it : R[t])
     {
       if (Q_prime[it].intersects(finals_state)) {
-        double w = default_weight;
-        auto it3 = finals.find(it);
-        if (it3 != finals.end()) {
-          w = it3->second;
+        for (auto& it2 : Q_prime[it]) {
+          auto it3 = finals.find(it2);
+          if (it3 != finals.end()) {
+            auto place = finals_prime.insert({it, it3->second}).first;
+            place->second = std::min(place->second, it3->second);
+          }
         }
-        finals_prime.insert({it, w});
       }
 
       std::map<std::pair<int, double>, sorted_vector<int> > mymap;
@@ -721,6 +718,11 @@ Transducer::reverse(int const epsilon_tag)
 
   int tmp = initial;
   initial = finals.begin()->first;
+  if(finals.begin()->second != default_weight)
+  {
+    initial = newState();
+    linkStates(initial, finals.begin()->first, epsilon_tag, finals.begin()->second);
+  }
   finals.clear();
   finals.insert({tmp, default_weight});
 }
-- 
2.43.0


From 45bf8b52f00dd66fbc79e7bd85c542c28177541f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:09 +0000
Subject: [PATCH 24/97] fix: let lt-print show a file with an empty section

---
 lttoolbox/lt_print.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/lt_print.cc b/lttoolbox/lt_print.cc
index 6619530..2d7f707 100644
--- a/lttoolbox/lt_print.cc
+++ b/lttoolbox/lt_print.cc
@@ -58,7 +58,9 @@ int main(int argc, char *argv[])
       if (!first) {
         u_fprintf(output, "--\n");
       }
-      it.second.joinFinals();
+      if (!it.second.hasNoFinals()) {
+        it.second.joinFinals();
+      }
       it.second.show(alphabet, output, 0, hfst);
       first = false;
     }
-- 
2.43.0


From 759cc2163ef130b0dd2cfd628db60b6edd186735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:10 +0000
Subject: [PATCH 25/97] fix: propagate the types of ATT arcs until nothing
 changes

---
 lttoolbox/att_compiler.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 4c415c1..1ccb447 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -468,18 +468,22 @@ AttCompiler::classify_forwards()
   while(!todo.empty()) {
     int next = todo.top();
     todo.pop();
-    if(done.find(next) != done.end()) continue;
+    done.insert(next);
     AttNode* n1 = get_node(next);
     for(auto& t1 : n1->transductions) {
       AttNode* n2 = get_node(t1.to);
+      bool changed = false;
       for(auto& t2 : n2->transductions) {
-        t2.type |= t1.type;
+        if((t2.type | t1.type) != t2.type) {
+          t2.type |= t1.type;
+          changed = true;
+        }
       }
-      if(done.find(t1.to) == done.end()) {
+      // a state we have been to needs another visit if its arcs changed
+      if(changed || done.find(t1.to) == done.end()) {
         todo.push(t1.to);
       }
     }
-    done.insert(next);
   }
 }
 
-- 
2.43.0


From 5d3001e1ecb1a49064b6fc27575d69218800b7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:10 +0000
Subject: [PATCH 26/97] fix: write letters beyond the basic plane as they are

---
 lttoolbox/att_compiler.cc | 3 +--
 lttoolbox/att_compiler.h  | 2 +-
 lttoolbox/file_utils.cc   | 6 +++++-
 lttoolbox/lt_append.cc    | 3 +--
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 1ccb447..af066a6 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -535,8 +535,7 @@ AttCompiler::write(FILE *output)
   } else {
     temp["main@standard"_u] = extract_transducer(UNDECIDED);
   }
-  writeTransducerSet(output, UString(letters.begin(), letters.end()),
-                     alphabet, temp);
+  writeTransducerSet(output, letters, alphabet, temp);
 }
 
 void
diff --git a/lttoolbox/att_compiler.h b/lttoolbox/att_compiler.h
index 4d4af15..533ddb6 100644
--- a/lttoolbox/att_compiler.h
+++ b/lttoolbox/att_compiler.h
@@ -108,7 +108,7 @@ private:
 
   Alphabet alphabet;
   /** All non-multicharacter symbols. */
-  std::set<UChar> letters;
+  std::set<UChar32> letters;
 
   /** Used in AttNode. */
   struct Transduction
diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 31608cc..4eb3d68 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -90,7 +90,11 @@ writeTransducerSet(FILE* output, const std::set<UChar32>& letters,
                    Alphabet& alpha,
                    std::map<UString, Transducer>& trans)
 {
-  writeTransducerSet(output, UString(letters.begin(), letters.end()), alpha, trans);
+  UString chars;
+  for (auto& it : letters) {
+    chars += it;
+  }
+  writeTransducerSet(output, chars, alpha, trans);
 }
 
 void
diff --git a/lttoolbox/lt_append.cc b/lttoolbox/lt_append.cc
index a8358fb..a15d0b7 100644
--- a/lttoolbox/lt_append.cc
+++ b/lttoolbox/lt_append.cc
@@ -49,7 +49,6 @@ int main(int argc, char *argv[])
   for (auto& it : chars2) {
     chars1.insert(it);
   }
-  UString chars(chars1.begin(), chars1.end());
 
   for (auto& it : trans2) {
     if (trans1.find(it.first) != trans1.end()) {
@@ -63,7 +62,7 @@ int main(int argc, char *argv[])
     trans1[it.first] = it.second;
   }
 
-  writeTransducerSet(output, chars, alpha1, trans1);
+  writeTransducerSet(output, chars1, alpha1, trans1);
 
   fclose(input1);
   fclose(input2);
-- 
2.43.0


From e558421d8f8fe56012846d9c8d814d10a175151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:10 +0000
Subject: [PATCH 27/97] fix: start an ATT transducer from the source state of
 its first line

---
 lttoolbox/att_compiler.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index af066a6..597524b 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -331,7 +331,10 @@ AttCompiler::parse(std::string const &file_name, bool read_rl)
   }
 
   if (!multiple_transducers) {
-    starting_state = 1;
+    auto& start = get_node(starting_state)->transductions;
+    if (!start.empty()) {
+      starting_state = start[0].to;
+    }
     // if we aren't disjuncting multiple transducers
     // then we have an extra epsilon transduction at the beginning
     // so skip it
-- 
2.43.0


From 35dff24596c019e1b0f80fc4ae7857cf28672aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:12 +0000
Subject: [PATCH 28/97] fix: let lt-print -a show letters beyond the basic
 plane

---
 lttoolbox/lt_print.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/lt_print.cc b/lttoolbox/lt_print.cc
index 2d7f707..90c5a55 100644
--- a/lttoolbox/lt_print.cc
+++ b/lttoolbox/lt_print.cc
@@ -46,7 +46,8 @@ int main(int argc, char *argv[])
 
   if (alpha) {
     for (auto& it : alphabetic_chars) {
-      u_fprintf(output, "%C\n", it);
+      u_fputc(it, output);
+      u_fprintf(output, "\n");
     }
     for (int i = 1; i <= alphabet.size(); i++) {
       alphabet.writeSymbol(-i, output);
-- 
2.43.0


From da41113c5338a48711352838fb5bb76406608127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:29 +0000
Subject: [PATCH 29/97] fix: let lt-restrict ignore variants of the other side,
 like lt-comp

---
 lttoolbox/lt_restrict.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/lt_restrict.cc b/lttoolbox/lt_restrict.cc
index 0aef3b4..def721a 100644
--- a/lttoolbox/lt_restrict.cc
+++ b/lttoolbox/lt_restrict.cc
@@ -83,13 +83,16 @@ int main(int argc, char* argv[])
     if (StringUtils::startswith(t, u"<r:") ||
         (has_var && StringUtils::startswith(t, u"<v:")) ||
         StringUtils::startswith(t, u"<alt:") ||
-        StringUtils::startswith(t, u"<vl:") ||
-        StringUtils::startswith(t, u"<vr:")) {
+        (dir == "RL" && StringUtils::startswith(t, u"<vl:")) ||
+        (dir == "LR" && StringUtils::startswith(t, u"<vr:"))) {
       int32_t s = alpha(-i, -i);
       if (!keep.count(s)) {
         drop.insert(s);
       }
-    } else if (!has_var && StringUtils::startswith(t, u"<v:")) {
+    } else if (StringUtils::startswith(t, u"<v:") ||
+               StringUtils::startswith(t, u"<vl:") ||
+               StringUtils::startswith(t, u"<vr:")) {
+      // like lt-comp, a variant of the other side does not matter
       keep.insert(alpha(-i, -i));
     }
   }
-- 
2.43.0


From d8323f139e49e525a79c0296d6436eab31dfac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:49 +0000
Subject: [PATCH 30/97] fix: minimise a transducer whose final states cannot be
 reached

---
 lttoolbox/transducer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 09696a7..04ddaff 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -396,6 +396,11 @@ Transducer::minimize(int const epsilon_tag)
   if (finals.empty()) return;
   reverse(epsilon_tag);
   determinize(epsilon_tag);
+  if (finals.empty()) {
+    // no final state can be reached
+    clear();
+    return;
+  }
   reverse(epsilon_tag);
   determinize(epsilon_tag);
 }
-- 
2.43.0


From ea3c4bf4c34a31b39296b1237ab5ac04d9f8f9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:59 +0000
Subject: [PATCH 31/97] fix: do not share the arcs of equivalent characters
 between entries

---
 lttoolbox/compiler.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index 22d8730..b52a0bb 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -273,6 +273,7 @@ Compiler::matchTransduction(std::vector<int> const &pi,
         weight_value = default_weight;
       }
 
+      int old_size = t.size();
       int new_state = t.insertSingleTransduction(tag, state, weight_value);
 
       if (is_separable) {
@@ -290,11 +291,14 @@ Compiler::matchTransduction(std::vector<int> const &pi,
         }
       }
 
-      if(acx_map_ptr != acx_map.end())
+      if(acx_map_ptr != acx_map.end() && t.size() > old_size)
       {
+        // these arcs start from a state of their own, so that other
+        // entries do not share them as part of their prefix
+        int acx_state = t.insertNewSingleTransduction(alphabet(0, 0), state, default_weight);
         for(auto& it : acx_map_ptr->second)
         {
-          t.linkStates(state, new_state, alphabet(it, rsymbol), weight_value);
+          t.linkStates(acx_state, new_state, alphabet(it, rsymbol), weight_value);
         }
       }
       state = new_state;
-- 
2.43.0


From e5d97b3b8923a9b9d392c961536f73692321bc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:13 +0000
Subject: [PATCH 32/97] fix: keep tags of the second transducer that the first
 lacks when composing

---
 lttoolbox/transducer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/transducer.h b/lttoolbox/transducer.h
index 98391fe..d552175 100644
--- a/lttoolbox/transducer.h
+++ b/lttoolbox/transducer.h
@@ -464,6 +464,7 @@ public:
     else {
       UString g_rightstr;
       g_a.getSymbol(g_rightstr, g_right);
+      f_a.includeSymbol(g_rightstr);
       gf_label = f_inverted ? f_a(f_a(g_rightstr), f_input)
                             : f_a(f_input,         f_a(g_rightstr));
     }
-- 
2.43.0


From 7c1656b384c1f901efd5481cbdd006102199d650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:13 +0000
Subject: [PATCH 33/97] fix: let lt-compose --anywhere match in the middle of a
 path, and whole matches only

---
 lttoolbox/transducer.cc | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 04ddaff..e509f9a 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1379,7 +1379,7 @@ Transducer::applyACX(Alphabet& alpha,
 
 
 Transducer
-Transducer::compose(Transducer const &g,
+Transducer::compose(Transducer const &anchored_g,
                     Alphabet &f_a, // this alphabet
                     Alphabet const &g_a, // alphabet of g
                     bool f_inverted,
@@ -1423,6 +1423,22 @@ Transducer::compose(Transducer const &g,
    */
   joinFinals(epsilon_tag);
 
+  // If composing g_anywhere, give g a state of its own for being outside
+  // of any match, which its matches start from and return to:
+  Transducer anywhere_g;
+  if (g_anywhere) {
+    anywhere_g = anchored_g;
+    int outside = anywhere_g.newState();
+    anywhere_g.linkStates(outside, anywhere_g.initial, epsilon_tag, default_weight);
+    for (auto& it : anywhere_g.finals) {
+      anywhere_g.linkStates(it.first, outside, epsilon_tag, it.second);
+    }
+    anywhere_g.initial = outside;
+    anywhere_g.finals.clear();
+    anywhere_g.finals.insert({outside, default_weight});
+  }
+  const Transducer& g = (g_anywhere ? anywhere_g : anchored_g);
+
   // (f_state, g_state)
   typedef std::pair<int, int> SearchState;
 
-- 
2.43.0


From 253cf4c35e3be7051c8729d917a6e3d88bff1938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:13 +0000
Subject: [PATCH 34/97] fix: let lt-compose accept the documented option -j

---
 lttoolbox/lt_compose.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/lt_compose.cc b/lttoolbox/lt_compose.cc
index 6ec365d..508c592 100644
--- a/lttoolbox/lt_compose.cc
+++ b/lttoolbox/lt_compose.cc
@@ -103,6 +103,7 @@ int main(int argc, char *argv[])
   CLI cli("compose transducer1 with transducer2", PACKAGE_VERSION);
   cli.add_bool_arg('i', "inverted", "run composition right-to-left on transducer1");
   cli.add_bool_arg('a', "anywhere", "don't require anchored matches, let transducer2 optionally compose at any sub-path");
+  cli.add_bool_arg('j', "jobs", "use one cpu core per section of transducer1");
   cli.add_file_arg("transducer1_bin_file", false);
   cli.add_file_arg("transducer2_bin_file");
   cli.add_file_arg("trimmed_bin_file");
-- 
2.43.0


From d9b2e78f30d0bc3752305cc025eb8b5298e12c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:13 +0000
Subject: [PATCH 35/97] fix: do not share the alphabet between the jobs of
 lt-compose

---
 lttoolbox/lt_compose.cc | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lttoolbox/lt_compose.cc b/lttoolbox/lt_compose.cc
index 508c592..f97ab4d 100644
--- a/lttoolbox/lt_compose.cc
+++ b/lttoolbox/lt_compose.cc
@@ -46,7 +46,12 @@ compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywh
   }
   union_g.minimize();
 
-  std::vector<std::future<std::pair<UString, Transducer>>> compositions;
+  struct Composition {
+    UString name;
+    Transducer gf;
+    Alphabet alph;
+  };
+  std::vector<std::future<Composition>> compositions;
   for (auto& it : trans_f) {
     if (it.second.numberOfTransitions() == 0) {
       std::cerr << "Warning: section " << it.first << " is empty! Skipping it..." << std::endl;
@@ -54,9 +59,10 @@ compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywh
     }
     if(jobs) {
       compositions.push_back(std::async(
-          [](Transducer &f, Transducer &g, Alphabet &alph_f, Alphabet &alph_g,
+          // composing adds to the alphabet, so each job needs its own copy
+          [](Transducer &f, Transducer &g, Alphabet alph, Alphabet &alph_g,
              bool f_inverted, bool g_anywhere, UString name) {
-            Transducer gf = f.compose(g, alph_f, alph_g, f_inverted, g_anywhere);
+            Transducer gf = f.compose(g, alph, alph_g, f_inverted, g_anywhere);
             if (gf.hasNoFinals()) {
               std::cerr << "Warning: section " << name
                         << " had no final state after composing! Skipping it..."
@@ -65,9 +71,9 @@ compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywh
             } else {
               gf.minimize();
             }
-            return std::make_pair(name, gf);
+            return Composition{name, gf, alph};
           },
-          std::ref(it.second), std::ref(union_g), std::ref(alph_f),
+          std::ref(it.second), std::ref(union_g), alph_f,
           std::ref(alph_g), f_inverted, g_anywhere, it.first));
     } else {
       Transducer gf = it.second.compose(union_g, alph_f, alph_g, f_inverted, g_anywhere);
@@ -83,8 +89,9 @@ compose(FILE* file_f, FILE* file_g, FILE* file_gf, bool f_inverted, bool g_anywh
   }
   for (auto &thr : compositions) {
     auto it = thr.get();
-    if (!it.second.hasNoFinals()) {
-      trans_gf[it.first] = it.second;
+    if (!it.gf.hasNoFinals()) {
+      it.gf.updateAlphabet(it.alph, alph_f);
+      trans_gf[it.name] = it.gf;
     }
   }
 
-- 
2.43.0


From c45dab3d5549ee5099add63e6d94a84a2efed1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:13 +0000
Subject: [PATCH 36/97] fix: keep the operands of a union apart when arcs lead
 back to the initial state

---
 lttoolbox/transducer.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index e509f9a..fe93747 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -856,6 +856,10 @@ Transducer::unionWith(Alphabet &my_a,
                       Transducer &t,
                       int const epsilon_tag)
 {
+  // arcs may lead back to the initial state, so t must not start there
+  int state = newState();
+  linkStates(state, initial, epsilon_tag, default_weight);
+  initial = state;
   finals.insert({insertTransducer(initial, t, epsilon_tag), default_weight});
 }
 
-- 
2.43.0


From 56b84f99a93078ce08ee6e96b7e4b36fb408aced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:58 +0000
Subject: [PATCH 37/97] fix: do not escape unknown words twice in generation

---
 lttoolbox/fst_processor.cc | 56 ++++++++++++++++++++++----------------
 lttoolbox/fst_processor.h  |  6 ++++
 2 files changed, 39 insertions(+), 23 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index e887b40..256b4bb 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -494,6 +494,23 @@ FSTProcessor::writeEscaped(UStringView str, UFILE *output)
   }
 }
 
+void
+FSTProcessor::writeEscapedOnce(UStringView str, UFILE *output)
+{
+  for(size_t i = 0, limit = str.size(); i < limit; i++)
+  {
+    if(str[i] == '\\' && i + 1 < limit)
+    {
+      u_fputc(str[i++], output);
+    }
+    else if(escaped_chars.find(str[i]) != escaped_chars.end())
+    {
+      u_fputc('\\', output);
+    }
+    u_fputc(str[i], output);
+  }
+}
+
 size_t
 FSTProcessor::writeEscapedPopBlanks(UStringView str, UFILE *output)
 {
@@ -518,20 +535,9 @@ FSTProcessor::writeEscapedPopBlanks(UStringView str, UFILE *output)
 void
 FSTProcessor::writeEscapedWithTags(UStringView str, UFILE *output)
 {
-  for(unsigned int i = 0, limit = str.size(); i < limit; i++)
-  {
-    if(str[i] == '<' && i >=1 && str[i-1] != '\\')
-    {
-      write(str.substr(i), output);
-      return;
-    }
-
-    if(escaped_chars.find(str[i]) != escaped_chars.end())
-    {
-      u_fputc('\\', output);
-    }
-    u_fputc(str[i], output);
-  }
+  UStringView lemma = removeTags(str);
+  writeEscapedOnce(lemma, output);
+  write(str.substr(lemma.size()), output);
 }
 
 
@@ -1308,14 +1314,14 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
         skip = true;
         if (mode == gm_tagged_nm) {
           u_fputc('^', output);
-          writeEscaped(removeTags(rd.content), output);
+          writeEscapedOnce(removeTags(rd.content), output);
           u_fputc('/', output);
           u_fputc(rd.mark, output);
           writeEscapedWithTags(rd.content, output);
           u_fputc('$', output);
         } else {
           if (mode != gm_clean) u_fputc(rd.mark, output);
-          writeEscaped(rd.content, output);
+          writeEscapedOnce(rd.content, output);
         }
         break;
       case '@':
@@ -1323,7 +1329,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
         switch (mode) {
         case gm_all:
           u_fputc(rd.mark, output);
-          writeEscaped(rd.content, output);
+          writeEscapedOnce(rd.content, output);
           break;
         case gm_unknown:
         case gm_tagged:
@@ -1331,11 +1337,11 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           [[fallthrough]];
         case gm_bilgen:
         case gm_clean:
-          writeEscaped(removeTags(rd.content), output);
+          writeEscapedOnce(removeTags(rd.content), output);
           break;
         case gm_tagged_nm:
           u_fputc('^', output);
-          writeEscaped(removeTags(rd.content), output);
+          writeEscapedOnce(removeTags(rd.content), output);
           u_fputc('/', output);
           u_fputc(rd.mark, output);
           writeEscapedWithTags(rd.content, output);
@@ -1384,7 +1390,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           switch (mode) {
           case gm_all:
             u_fputc('#', output);
-            writeEscaped(rd.content, output);
+            writeEscapedOnce(rd.content, output);
             break;
           case gm_carefulcase:
           case gm_unknown:
@@ -1393,11 +1399,11 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
             [[fallthrough]];
           case gm_bilgen:
           case gm_clean:
-            writeEscaped(removeTags(rd.content), output);
+            writeEscapedOnce(removeTags(rd.content), output);
             break;
           case gm_tagged_nm:
             u_fputc('^', output);
-            writeEscaped(removeTags(rd.content), output);
+            writeEscapedOnce(removeTags(rd.content), output);
             u_fputc('/', output);
             u_fputc('#', output);
             writeEscapedWithTags(rd.content, output);
@@ -2395,7 +2401,11 @@ FSTProcessor::removeTags(UStringView str)
 {
   for(unsigned int i = 0; i < str.size(); i++)
   {
-    if(str[i] == '<' && i >=1 && str[i-1] != '\\')
+    if(str[i] == '\\')
+    {
+      i++; // the next character is escaped
+    }
+    else if(str[i] == '<' && i >=1)
     {
       return str.substr(0, i);
     }
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index c0a1c42..41254a7 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -347,6 +347,12 @@ private:
    */
   size_t writeEscapedPopBlanks(UStringView str, UFILE *output);
 
+  /**
+   * Write a string to an output stream, escaping those escapable characters
+   * that are not escaped yet
+   */
+  void writeEscapedOnce(UStringView str, UFILE *output);
+
   /**
    * Write a string to an output stream, escaping all escapable characters
    * but keeping symbols without escaping
-- 
2.43.0


From 027896c82aad8b6641b7f6d6095aabfa128a8445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:58 +0000
Subject: [PATCH 38/97] fix: do not drop words marked with @ in careful-case
 generation

---
 lttoolbox/fst_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 256b4bb..c52db6b 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1331,6 +1331,7 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
           u_fputc(rd.mark, output);
           writeEscapedOnce(rd.content, output);
           break;
+        case gm_carefulcase:
         case gm_unknown:
         case gm_tagged:
           u_fputc(rd.mark, output);
-- 
2.43.0


From 092710cdc740d2dbdd6d99e28ec2b24dc91c7641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:58 +0000
Subject: [PATCH 39/97] fix: look at whole characters for the case of a
 generated form

---
 lttoolbox/fst_processor.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index c52db6b..07710c5 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1370,8 +1370,11 @@ FSTProcessor::generation(InputFile& input, UFILE *output, GenerationMode mode)
         if (current_state.isFinal(all_finals)) {
           bool firstupper = false, uppercase = false;
           if (!dictionaryCase) {
-            uppercase = rd.content.size() > 1 && u_isupper(rd.content[1]);
-            firstupper= u_isupper(rd.content[0]);
+            auto& symbols = rd.symbols;
+            uppercase = (symbols.size() > 1 && symbols[1] > 0 &&
+                         u_isupper(symbols[1]));
+            firstupper = (!symbols.empty() && symbols[0] > 0 &&
+                          u_isupper(symbols[0]));
           }
 
           if (mode == gm_tagged || mode == gm_tagged_nm) {
-- 
2.43.0


From ce2796720baaaf8def2f818d6016855de476caa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:16 +0000
Subject: [PATCH 40/97] fix: keep a surface form that starts with a mark in
 lexical transfer

---
 lttoolbox/fst_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 07710c5..d4ea0b1 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1774,6 +1774,7 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
 
     if (biltransSurfaceFormsKeep && !reader.readings.empty()) {
       u_fputc('^', output);
+      if (reader.readings[0].mark != '\0') u_fputc(reader.readings[0].mark, output);
       write(reader.readings[0].content, output);
       u_fputc((reader.readings.size() > 1 ? '/' : '$'), output);
     }
-- 
2.43.0


From 590e964698ca04e59bc92e296ce4cd4bddc27a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:16 +0000
Subject: [PATCH 41/97] fix: do not drop the first character of a word like
 %<percent> in lexical transfer

---
 lttoolbox/fst_processor.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index d4ea0b1..6eb666f 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1798,8 +1798,11 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
     }
 
     auto& symbols = reader.readings[index].symbols;
+    // other marks are just the first character of the word
+    UChar32 mark = reader.readings[index].mark;
 
     if (symbols.empty()) {
+      if (mark != '\0') u_fputc(mark, output);
       u_fputc('$', output);
       maybeFlush(output, reader.at_null);
       continue;
@@ -1814,7 +1817,7 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
     bool seenTags = false;
     size_t queue_start = 0;
     std::vector<UString> result;
-    if (reader.readings[index].mark == '#') current_state.step('#');
+    if (mark != '\0') current_state.step(mark);
     for (size_t i = 0; i < symbols.size(); i++) {
       seenTags = seenTags || alphabet.isTag(symbols[i]);
       UString source;
@@ -1842,7 +1845,7 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
     if(result.empty() && (mode == gm_bilgen || mode == gm_all)) {
       // Retry looking up lower-cased version, this time not using alt-override (which leads to state explosions)
       State current_state = initial_state;
-      if (reader.readings[index].mark == '#') current_state.step('#');
+      if (mark != '\0') current_state.step(mark);
       bool seenTags = false;
       for (size_t i = 0; i < symbols.size(); i++) {
         seenTags = seenTags || alphabet.isTag(symbols[i]);
@@ -1869,8 +1872,8 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
 
     UString source;
     size_t queue_pos = 0;
-    if (reader.readings[index].mark == '#') {
-      source += '#';
+    if (mark != '\0') {
+      source += mark;
       queue_pos = 1;
     }
     for (size_t i = 0; i < symbols.size(); i++) {
-- 
2.43.0


From 06c8243670cab52d15371fbe67b394d1b2dd3664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:37 +0000
Subject: [PATCH 42/97] fix: do not write a character for the end of the input
 in transliteration

---
 lttoolbox/fst_processor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 6eb666f..76da23e 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -376,7 +376,7 @@ FSTProcessor::readTransliterationWord(InputFile& input)
           word.push_back(static_cast<int32_t>(input.get()));
         } else if (c == '<') {
           word.push_back(alphabet(input.readBlock('<', '>')));
-        } else if (c == '\0') {
+        } else if (c == '\0' || c == U_EOF) {
           input.unget(c);
           break;
         } else {
@@ -391,7 +391,7 @@ FSTProcessor::readTransliterationWord(InputFile& input)
   } else {
     while (!input.eof()) {
       UChar32 c = input.get();
-      if (u_isspace(c) || c == '[' || c == '\0') {
+      if (u_isspace(c) || c == '[' || c == '\0' || c == U_EOF) {
         input.unget(c);
         break;
       } else if (c == '\\') {
-- 
2.43.0


From 43d9687eee35a4f52ea7f486b5c7373a46a597f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:37 +0000
Subject: [PATCH 43/97] fix: go on right behind what was replaced in
 transliteration

---
 lttoolbox/fst_processor.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 76da23e..713da58 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1547,7 +1547,8 @@ FSTProcessor::transliteration(InputFile& input, UFILE *output)
         std::vector<int32_t> word = transliteration_queue.front();
         transliteration_queue.pop_front();
         size_t i = 0;
-        for (; i < match.size() && i < match_pos - start_pos; i++) {
+        // at least one symbol of the match is done with
+        for (; i < match.size() && i + 1 < match_pos - start_pos; i++) {
           if (match[match.size()-i-1] != word[match_pos-i-1]) {
             break;
           }
@@ -1566,9 +1567,7 @@ FSTProcessor::transliteration(InputFile& input, UFILE *output)
           if (c == static_cast<int32_t>(' ')) lf_spaces++;
         }
         space_diff += (lf_spaces - sf_spaces);
-        size_t last_start = start_pos;
-        start_pos = match_pos - i;
-        if (start_pos == last_start) start_pos++;
+        start_pos += match.size() - i;
         cur_pos = start_pos;
         cur_word = 0;
       }
-- 
2.43.0


From a87c7754f28df0a8cf8c2ee74fdbf3eaa366c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:37 +0000
Subject: [PATCH 44/97] fix: take letters beyond the basic plane for letters in
 transliteration

---
 lttoolbox/alphabet.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index 0531005..de398a0 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -313,8 +313,8 @@ Alphabet::tokenize(UStringView str) const
 {
   std::vector<int32_t> ret;
   for (auto sym : symbol_iter(str)) {
-    if (sym.size() > 1) ret.push_back(operator()(sym));
-    else ret.push_back(static_cast<int32_t>(sym[0]));
+    if (sym.size() > 1 && sym[0] == '<') ret.push_back(operator()(sym));
+    else ustring_to_vec32(sym, ret);
   }
   return ret;
 }
-- 
2.43.0


From b52fa2f0cb55b622ebe4c418b415a67f71172189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:37 +0000
Subject: [PATCH 45/97] fix: keep unknown tags in transliteration

---
 lttoolbox/fst_processor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 713da58..c30cc6f 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -375,7 +375,9 @@ FSTProcessor::readTransliterationWord(InputFile& input)
         } else if (c == '\\') {
           word.push_back(static_cast<int32_t>(input.get()));
         } else if (c == '<') {
-          word.push_back(alphabet(input.readBlock('<', '>')));
+          UString tag = input.readBlock('<', '>');
+          alphabet.includeSymbol(tag);
+          word.push_back(alphabet(tag));
         } else if (c == '\0' || c == U_EOF) {
           input.unget(c);
           break;
@@ -397,7 +399,9 @@ FSTProcessor::readTransliterationWord(InputFile& input)
       } else if (c == '\\') {
         word.push_back(static_cast<int32_t>(input.get()));
       } else if (c == '<') {
-        word.push_back(alphabet(input.readBlock('<', '>')));
+        UString tag = input.readBlock('<', '>');
+        alphabet.includeSymbol(tag);
+        word.push_back(alphabet(tag));
       } else {
         word.push_back(static_cast<int32_t>(c));
       }
-- 
2.43.0


From e6e887ee4291a160c299be01aaace7e8643292bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:59 +0000
Subject: [PATCH 46/97] fix: queue a blank for escaped spaces in
 transliteration

---
 lttoolbox/fst_processor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index c30cc6f..643a57c 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -373,7 +373,9 @@ FSTProcessor::readTransliterationWord(InputFile& input)
           input.unget(c);
           break;
         } else if (c == '\\') {
-          word.push_back(static_cast<int32_t>(input.get()));
+          c = input.get();
+          if (c == ' ') blankqueue.push(" "_u); // it stands for itself
+          word.push_back(static_cast<int32_t>(c));
         } else if (c == '<') {
           UString tag = input.readBlock('<', '>');
           alphabet.includeSymbol(tag);
@@ -397,7 +399,9 @@ FSTProcessor::readTransliterationWord(InputFile& input)
         input.unget(c);
         break;
       } else if (c == '\\') {
-        word.push_back(static_cast<int32_t>(input.get()));
+        c = input.get();
+        if (c == ' ') blankqueue.push(" "_u); // it stands for itself
+        word.push_back(static_cast<int32_t>(c));
       } else if (c == '<') {
         UString tag = input.readBlock('<', '>');
         alphabet.includeSymbol(tag);
-- 
2.43.0


From 298dde062d6277ed624ff5a90b2705b7d13fbd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:45 +0000
Subject: [PATCH 47/97] fix: do not add weights of the bilingual dictionary
 when trimming

---
 lttoolbox/transducer.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index fe93747..7b65961 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1118,7 +1118,6 @@ Transducer::trim(Transducer &trimmer,
     for(auto& trimmer_trans_it : trimmer.transitions[trimmer_src]) {
       int trimmer_label = trimmer_trans_it.first,
           trimmer_trg   = trimmer_trans_it.second.first;
-      double trimmer_wt = trimmer_trans_it.second.second;
       int32_t trimmer_left = trimmer_a.decode(trimmer_label).first;
 
       if(trimmer_preplus == trimmer_src) {
@@ -1138,7 +1137,7 @@ Transducer::trim(Transducer &trimmer,
         trimmed.linkStates(trimmed_src,
                            trimmed_trg,
                            epsilon_tag,
-                           trimmer_wt);
+                           default_weight); // the weights of this are kept
       }
     }
 
-- 
2.43.0


From 233c2037b4ee2143109e3314d650c40f30345d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:57 +0000
Subject: [PATCH 48/97] fix: keep a joined analysis only when all of its parts
 are in the bilingual dictionary

---
 lttoolbox/transducer.cc | 57 ++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 35 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 7b65961..649246a 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -1067,7 +1067,7 @@ Transducer::trim(Transducer &trimmer,
   typedef std::pair<int, std::pair<int, int > > SearchState;
   // first: currently searched state in this;
   // second.first: currently matched trimmer state;
-  // second.second: last matched trimmer state before a + restart (or the same second.first if no + is seen yet).
+  // second.second: last matched trimmer state before the first + restart (or no_plus if no + is seen yet).
   // When several trimmer-states match from one this-state, we just get several triplets.
 
   // State numbers will differ in thisXtrimmer transducers and the trimmed:
@@ -1077,7 +1077,8 @@ Transducer::trim(Transducer &trimmer,
   std::vector<SearchState> todo;
   std::set<SearchState> seen;
   SearchState current;
-  SearchState next{initial, {trimmer.initial, trimmer.initial}};
+  const int no_plus = -1;
+  SearchState next{initial, {trimmer.initial, no_plus}};
   todo.push_back(next);
   states_this_trimmed.insert({next, trimmed.initial});
 
@@ -1105,8 +1106,7 @@ Transducer::trim(Transducer &trimmer,
     seen.insert(current);
     int this_src        = current.first,
         trimmer_src     = current.second.first,
-        trimmer_preplus = current.second.second,
-        trimmer_preplus_next = trimmer_preplus;
+        trimmer_preplus = current.second.second;
 
     if(states_this_trimmed.find(current) == states_this_trimmed.end()) {
       std::cerr <<"Error: couldn't find "<<this_src<<","<<trimmer_src<<" in state map"<< std::endl;
@@ -1120,14 +1120,9 @@ Transducer::trim(Transducer &trimmer,
           trimmer_trg   = trimmer_trans_it.second.first;
       int32_t trimmer_left = trimmer_a.decode(trimmer_label).first;
 
-      if(trimmer_preplus == trimmer_src) {
-        // Keep the old preplus state if it was set; equal to current trimmer state means unset:
-        trimmer_preplus_next = trimmer_trg;
-      }
-
       if(trimmer_left == 0)
       {
-        next = std::make_pair(this_src, std::make_pair(trimmer_trg, trimmer_preplus_next));
+        next = std::make_pair(this_src, std::make_pair(trimmer_trg, trimmer_preplus));
         if(seen.find(next) == seen.end())
         {
           todo.push_back(next);
@@ -1152,12 +1147,12 @@ Transducer::trim(Transducer &trimmer,
 
       bool special = false;
 
-      if (sym_wb.count(this_right)) {
+      // What a + ends has to be complete, unless it is the first part, which may go on after a # or else is looked at in the end
+      if (sym_lsx.count(this_right) ||
+          (sym_wb.count(this_right) && (trimmer_preplus == no_plus || trimmer.isFinal(trimmer_src)))) {
         special = (this_right != static_cast<int32_t>('+'));
-        if(trimmer_preplus == trimmer_src) {
-          // Keep the old preplus state if it was set; equal to current trimmer state means unset:
-          trimmer_preplus_next = trimmer_src; // not _trg when join!
-        }
+        // Keep the old preplus state if it was set
+        int trimmer_preplus_next = (trimmer_preplus == no_plus ? trimmer_src : trimmer_preplus);
         // Go to the start in trimmer, but record where we restarted from in case we later see a #:
         next = std::make_pair(this_trg, std::make_pair(trimmer.initial, trimmer_preplus_next));
         if(seen.find(next) == seen.end())
@@ -1180,14 +1175,7 @@ Transducer::trim(Transducer &trimmer,
       else if (sym_cmp_or_eps.count(this_right)) {
         special = true;
         // Stay put in the trimmer FST
-        int trimmer_trg = trimmer_src;
-
-        if(trimmer_preplus == trimmer_src) {
-          // Keep the old preplus state if it was set; equal to current trimmer state means unset:
-          trimmer_preplus_next = trimmer_trg;
-        }
-
-        next = std::make_pair(this_trg, std::make_pair(trimmer_trg, trimmer_preplus_next));
+        next = std::make_pair(this_trg, std::make_pair(trimmer_src, trimmer_preplus));
         if(seen.find(next) == seen.end())
         {
           todo.push_back(next);
@@ -1208,24 +1196,21 @@ Transducer::trim(Transducer &trimmer,
         // Loop through non-epsilon arcs from the live state of trimmer
 
         // If we see a hash/group, we may have to rewind our trimmer state first:
-        if(this_right == static_cast<int32_t>('#') &&
-           trimmer_preplus != trimmer_src)
+        int trimmer_from = trimmer_src,
+            trimmer_preplus_next = trimmer_preplus;
+        if(this_right == static_cast<int32_t>('#') && trimmer_preplus != no_plus)
         {
-          states_this_trimmed.insert({std::make_pair(this_src, std::make_pair(trimmer_preplus, trimmer_preplus)), trimmed_src});
-          trimmer_src = trimmer_preplus;
+          if(!trimmer.isFinal(trimmer_src)) continue; // the last part is not complete
+          trimmer_from = trimmer_preplus;
+          trimmer_preplus_next = no_plus;
         }
 
-        for(auto& trimmer_trans_it : trimmer.transitions.at(trimmer_src))
+        for(auto& trimmer_trans_it : trimmer.transitions.at(trimmer_from))
         {
           int trimmer_label = trimmer_trans_it.first,
               trimmer_trg   = trimmer_trans_it.second.first;
           int32_t trimmer_left = trimmer_a.decode(trimmer_label).first;
 
-          if(trimmer_preplus == trimmer_src) {
-            // Keep the old preplus state if it was set; equal to current trimmer state means unset:
-            trimmer_preplus_next = trimmer_trg;
-          }
-
           if (trimmer_left != 0 && // we've already dealt with trimmer epsilons
               this_a.sameSymbol(this_right, trimmer_a, trimmer_left, true)) {
             next = std::make_pair(this_trg, std::make_pair(trimmer_trg, trimmer_preplus_next));
@@ -1251,9 +1236,11 @@ Transducer::trim(Transducer &trimmer,
   for(auto& it : states_this_trimmed)
   {
     int s_this = it.first.first;
-    int s_trimmer = it.first.second.first; // ignore the preplus here
+    int s_trimmer = it.first.second.first;
+    int s_preplus = it.first.second.second;
     int s_trimmed = it.second;
-    if(isFinal(s_this) && trimmer.isFinal(s_trimmer))
+    if(isFinal(s_this) && trimmer.isFinal(s_trimmer) &&
+       (s_preplus == no_plus || trimmer.isFinal(s_preplus)))
     {
       trimmed.finals.insert(std::make_pair(s_trimmed, finals[s_this]));
     }
-- 
2.43.0


From 0f9af948ace76096a06c68e045c146668cc2c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:44 +0000
Subject: [PATCH 49/97] fix: keep the queues of a lemma with the tags they go
 with when trimming

---
 lttoolbox/transducer.cc | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 649246a..40fb526 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -891,12 +891,12 @@ Transducer::copyWithTagsFirst(int start,
   Transducer new_t;
   Transducer lemq;
 
-  std::map<int, int> states_this_new;
-  states_this_new.insert({start, new_t.initial});
+  typedef std::pair<int, int> SearchState;
+  // what follows a lemq is kept apart from what follows another one
+  std::map<SearchState, int> states_this_new;
   std::map<int, int> states_this_lemq;
-  states_this_new.insert({start, lemq.initial});
+  states_this_lemq.insert({start, lemq.initial});
 
-  typedef std::pair<int, int> SearchState;
   // Each searchstate in the stack is a transition in this FST, along
   // with the last reached state of the lemq
   std::vector<SearchState> todo;
@@ -928,23 +928,20 @@ Transducer::copyWithTagsFirst(int start,
         if(this_src == this_lemqlast)
         {
           // We've reached the first tag
-          new_src = states_this_new[start];
+          new_src = new_t.initial;
           lemq.finals.insert({this_lemqlast, default_weight});
         }
         else
         {
-          if(states_this_new.find(this_src) == states_this_new.end())
-          {
-            states_this_new.insert({this_src, new_t.newState()});
-          }
-          new_src = states_this_new[this_src];
+          new_src = states_this_new.at(current);
         }
 
-        if(states_this_new.find(this_trg) == states_this_new.end())
+        SearchState trg{this_trg, this_lemqlast};
+        if(states_this_new.find(trg) == states_this_new.end())
         {
-          states_this_new.insert({this_trg, new_t.newState()});
+          states_this_new.insert({trg, new_t.newState()});
         }
-        int new_trg = states_this_new[this_trg];
+        int new_trg = states_this_new[trg];
         new_t.linkStates(new_src, new_trg, label, this_wt);
 
         if(isFinal(this_src))
@@ -977,8 +974,7 @@ Transducer::copyWithTagsFirst(int start,
 
   for(auto& it : finally)
   {
-    int last_tag = it.first,
-      this_lemqlast = it.second;
+    int this_lemqlast = it.second;
     // copy lemq, letting this_lemqlast be the only final state in newlemq
     Transducer newlemq = Transducer(lemq);
     newlemq.finals.clear();
@@ -986,7 +982,7 @@ Transducer::copyWithTagsFirst(int start,
     newlemq.minimize();
 
     int group_start = new_t.newState();
-    new_t.linkStates(states_this_new[last_tag], group_start, group_label, default_weight);
+    new_t.linkStates(states_this_new[it], group_start, group_label, default_weight);
 
     // append newlemq into the group after last_tag:
     new_t.finals.insert({new_t.insertTransducer(group_start, newlemq), default_weight});
-- 
2.43.0


From 2b165b707506afdf21bd49a5923f23e039eabd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:29 +0000
Subject: [PATCH 50/97] fix: let lt-trim handle lemma queues without tags

---
 lttoolbox/transducer.cc | 49 ++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 40fb526..dc29dd7 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -897,13 +897,14 @@ Transducer::copyWithTagsFirst(int start,
   std::map<int, int> states_this_lemq;
   states_this_lemq.insert({start, lemq.initial});
 
-  // Each searchstate in the stack is a transition in this FST, along
-  // with the last reached state of the lemq
+  // Each searchstate in the stack is a state in this FST, along with
+  // the last reached state of the lemq once we are done reading that
+  const int in_lemq = -1;
   std::vector<SearchState> todo;
   std::set<SearchState> seen;
   std::set<SearchState> finally;
   SearchState current;
-  todo.push_back({start,start});
+  todo.push_back({start, in_lemq});
 
   while(!todo.empty()) {
     current = todo.back();
@@ -911,6 +912,11 @@ Transducer::copyWithTagsFirst(int start,
     seen.insert(current);
     int this_src = current.first, this_lemqlast = current.second;
 
+    if(isFinal(this_src))
+    {
+      finally.insert(current);
+    }
+
     for(auto& trans_it : transitions[this_src])
     {
       int label = trans_it.first, this_trg = trans_it.second.first;
@@ -919,24 +925,17 @@ Transducer::copyWithTagsFirst(int start,
 
       // Anything after the first tag goes before the lemq, whether
       // epsilon or alphabetic (might be a hack to force trimming). If
-      // the lemqlast state is already set to something other than
-      // this_src, then we've seen the first tag (and are done reading
-      // lemq).
-      if(alphabet.isTag(left_symbol) || (this_src != this_lemqlast))
+      // the lemqlast state is already set, then we've seen the first
+      // tag (and are done reading lemq).
+      if(alphabet.isTag(left_symbol) || this_lemqlast != in_lemq)
       {
-        int new_src;
-        if(this_src == this_lemqlast)
-        {
-          // We've reached the first tag
-          new_src = new_t.initial;
-          lemq.finals.insert({this_lemqlast, default_weight});
-        }
-        else
+        int new_src = new_t.initial; // where the first tag starts
+        if(this_lemqlast != in_lemq)
         {
           new_src = states_this_new.at(current);
         }
 
-        SearchState trg{this_trg, this_lemqlast};
+        SearchState trg{this_trg, this_lemqlast == in_lemq ? this_src : this_lemqlast};
         if(states_this_new.find(trg) == states_this_new.end())
         {
           states_this_new.insert({trg, new_t.newState()});
@@ -944,14 +943,9 @@ Transducer::copyWithTagsFirst(int start,
         int new_trg = states_this_new[trg];
         new_t.linkStates(new_src, new_trg, label, this_wt);
 
-        if(isFinal(this_src))
-        {
-          finally.insert({this_src, this_lemqlast});
-        }
-
-        if(seen.find(std::make_pair(this_trg, this_lemqlast)) == seen.end())
+        if(seen.find(trg) == seen.end())
         {
-          todo.push_back({this_trg, this_lemqlast});
+          todo.push_back(trg);
         }
       }
       else
@@ -964,9 +958,9 @@ Transducer::copyWithTagsFirst(int start,
         }
         int lemq_trg = states_this_lemq[this_trg];
         lemq.linkStates(lemq_src, lemq_trg, label, this_wt);
-        if(seen.find({this_trg, this_trg}) == seen.end())
+        if(seen.find({this_trg, in_lemq}) == seen.end())
         {
-          todo.push_back({this_trg, this_trg});
+          todo.push_back({this_trg, in_lemq});
         }
       }
     } // end for transitions
@@ -974,7 +968,8 @@ Transducer::copyWithTagsFirst(int start,
 
   for(auto& it : finally)
   {
-    int this_lemqlast = it.second;
+    bool has_tags = (it.second != in_lemq);
+    int this_lemqlast = (has_tags ? it.second : it.first);
     // copy lemq, letting this_lemqlast be the only final state in newlemq
     Transducer newlemq = Transducer(lemq);
     newlemq.finals.clear();
@@ -982,7 +977,7 @@ Transducer::copyWithTagsFirst(int start,
     newlemq.minimize();
 
     int group_start = new_t.newState();
-    new_t.linkStates(states_this_new[it], group_start, group_label, default_weight);
+    new_t.linkStates(has_tags ? states_this_new[it] : new_t.initial, group_start, group_label, default_weight);
 
     // append newlemq into the group after last_tag:
     new_t.finals.insert({new_t.insertTransducer(group_start, newlemq), default_weight});
-- 
2.43.0


From 258f45c74873ae7a34084d6da58dc421b1859320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:35 +0000
Subject: [PATCH 51/97] fix: do not let longer bilingual entries go on after
 any tags when trimming

---
 lttoolbox/transducer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index dc29dd7..61586d3 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -868,13 +868,17 @@ Transducer::appendDotStar(std::set<int> const &loopback_symbols, int const epsil
 {
   Transducer prefix_transducer(*this);
 
-  for(auto& prefix_it : prefix_transducer.finals)
+  for(auto& prefix_it : finals)
   {
+    // the loop gets a state of its own, since there may be longer entries
+    int state = prefix_transducer.newState();
+    prefix_transducer.linkStates(prefix_it.first, state, epsilon_tag, default_weight);
+    prefix_transducer.setFinal(state, prefix_it.second);
     for(auto& loopback_it : loopback_symbols)
     {
       if(loopback_it != epsilon_tag) // TODO: Necessary? Minimization should remove epsilon loopbacks anyway
       {
-        prefix_transducer.linkStates(prefix_it.first, prefix_it.first, loopback_it, prefix_it.second);
+        prefix_transducer.linkStates(state, state, loopback_it, prefix_it.second);
       }
     }
   }
-- 
2.43.0


From bbb26f7d495a263b28ad4f750b197413e5a0ce28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:15 +0000
Subject: [PATCH 52/97] fix: write a merge that is not ended by the end of the
 input

---
 lttoolbox/fst_processor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 643a57c..dbfcfea 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2099,7 +2099,7 @@ FSTProcessor::quoteMerge(InputFile& input, UFILE *output)
         u_fputc('$', output);
       }
     }
-    if(end_merging || reader.at_null) {
+    if(end_merging || reader.at_null || reader.at_eof) {
       if (merging) {
         u_fputc('^', output);
         write(surface, output);
-- 
2.43.0


From 3442dc050eda83237bd999ab628a3a5231524336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:15 +0000
Subject: [PATCH 53/97] fix: let lt-merge read its input file when no output
 file is given

---
 lttoolbox/lt_merge.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/lt_merge.cc b/lttoolbox/lt_merge.cc
index d3939f7..d176f20 100644
--- a/lttoolbox/lt_merge.cc
+++ b/lttoolbox/lt_merge.cc
@@ -35,7 +35,7 @@ int main(int argc, char *argv[])
   auto strs = cli.get_strs();
   bool unmerge = cli.get_bools()["unmerge"];
   InputFile input;
-  if (!cli.get_files()[1].empty()) {
+  if (!cli.get_files()[0].empty()) {
     input.open_or_exit(cli.get_files()[0].c_str());
   }
   UFILE* output = openOutTextFile(cli.get_files()[1]);
-- 
2.43.0


From 94856a56f44b00eda082c72d8cfe21b4fed0a2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:15 +0000
Subject: [PATCH 54/97] fix: escape blanks within merged words, as unmerging
 expects

---
 lttoolbox/fst_processor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index dbfcfea..6d65ef7 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2065,7 +2065,7 @@ FSTProcessor::quoteMerge(InputFile& input, UFILE *output)
     }
     if(merging) {
       if(surface.size() > 0) {
-        surface += reader.blank;
+        appendEscaped(surface, reader.blank);
         appendEscaped(surface, reader.wblank);
         if(!reader.wblank.empty()) { appendEscaped(surface, "^$"_u); } // otherwise cg-proc will Error wordblank not prior to token
       }
-- 
2.43.0


From 5418a4337b90a74c788001c88c00ad70139cdd81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:45 +0000
Subject: [PATCH 55/97] fix: do not let an earlier word decide about compounds
 with a blank

---
 lttoolbox/fst_processor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 6d65ef7..5a680ce 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1087,6 +1087,7 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       lf.clear();
       sf.clear();
       last_start = input_buffer.getPos();
+      last_size = 0;
       last_incond = false;
       last_postblank = false;
       last_preblank = false;
-- 
2.43.0


From ae4fe21bf8ec8a30cc288cdc89dbf62f47b23d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:48 +0000
Subject: [PATCH 56/97] fix: do not let unfinished words hide compounds

---
 lttoolbox/fst_processor.cc | 2 +-
 lttoolbox/state.cc         | 6 ++++--
 lttoolbox/state.h          | 4 +++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 5a680ce..63cf624 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -732,7 +732,7 @@ FSTProcessor::compoundAnalysis(UString input_word)
     }
   }
 
-  current_state.pruneCompounds(compoundRSymbol, '+', compound_max_elements);
+  current_state.pruneCompounds(compoundRSymbol, '+', compound_max_elements, &all_finals);
   return filterFinals(current_state, input_word);
 }
 
diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 51ee771..8bc9f8f 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -798,7 +798,8 @@ State::filterFinalsTM(std::map<Node *, double> const &finals,
 
 
 void
-State::pruneCompounds(int requiredSymbol, int separationSymbol, int compound_max_elements)
+State::pruneCompounds(int requiredSymbol, int separationSymbol, int compound_max_elements,
+                      const std::map<Node *, double> *finals)
 {
   int minNoOfCompoundElements = compound_max_elements;
   int *noOfCompoundElements = new int[state.size()];
@@ -807,7 +808,8 @@ State::pruneCompounds(int requiredSymbol, int separationSymbol, int compound_max
   {
     std::vector<std::pair<int, double>> seq = *state.at(i).sequence;
 
-    if(lastPartHasRequiredSymbol(seq, requiredSymbol, separationSymbol))
+    if((finals == NULL || finals->count(state.at(i).where) > 0) &&
+       lastPartHasRequiredSymbol(seq, requiredSymbol, separationSymbol))
     {
       int this_noOfCompoundElements = 0;
       for (int j = seq.size()-2; j>0; j--) if ((seq.at(j)).first==separationSymbol) this_noOfCompoundElements++;
diff --git a/lttoolbox/state.h b/lttoolbox/state.h
index c760af1..69c4e41 100644
--- a/lttoolbox/state.h
+++ b/lttoolbox/state.h
@@ -223,8 +223,10 @@ public:
     * @param requieredSymbol the symbol requiered in the last part
     * @param separationSymbol the symbol that represent the separation between two parts
     * @param compound_max_elements the maximum part number allowed
+    * @param finals the final nodes: states that are not final are no compounds (NULL: look at all states)
     */
-  void pruneCompounds(int requiredSymbol, int separationSymbol, int compound_max_elements);
+  void pruneCompounds(int requiredSymbol, int separationSymbol, int compound_max_elements,
+                      const std::map<Node *, double> *finals = NULL);
 
   /**
     * Remove states containing a forbidden symbol
-- 
2.43.0


From b3ac3fab2975e0be24e578880423648fe91beb50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:55 +0000
Subject: [PATCH 57/97] fix: keep the weight of the final states of the parts
 of a compound

---
 lttoolbox/state.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 8bc9f8f..51ac779 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -940,7 +940,7 @@ State::restartFinals(const std::map<Node *, double> &finals, int requiredSymbol,
               tnvec->push_back(state_i.sequence->at(k));
             }
             TNodeState tn(initst.where, tnvec, state_i.dirty);
-            tn.sequence->push_back({separationSymbol, 0.0});
+            tn.sequence->push_back({separationSymbol, finals.at(state_i.where)});
             state.push_back(tn);
           }
         }
-- 
2.43.0


From ea32bffe281b9af10d274a7fcad17b04b9b57e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:25 +0000
Subject: [PATCH 58/97] fix: do not decompose words when the dictionary has no
 mark for the parts

---
 lttoolbox/fst_processor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 63cf624..bf71104 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -701,6 +701,10 @@ FSTProcessor::compoundAnalysis(UString input_word)
 {
   const int MAX_COMBINATIONS = 32767;
 
+  if (compoundOnlyLSymbol == 0 || compoundRSymbol == 0) {
+    return UString(); // without the marks there are no parts
+  }
+
   State current_state = initial_state;
 
   std::vector<int32_t> symbols;
-- 
2.43.0


From 41c1c991a8348a1f9804ac937171ee70c22f3246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:57 +0000
Subject: [PATCH 59/97] fix: let lt-expand stop at a parse error within an
 entry

---
 lttoolbox/expander.cc | 31 +++++++++++++++++--------------
 lttoolbox/expander.h  |  6 ++++++
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index 4ee526c..bd9299d 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -170,16 +170,24 @@ Expander::skipBlanks(UString &name)
       std::cerr << "): Invalid construction." << std::endl;
       exit(EXIT_FAILURE);
     }
-    xmlTextReaderRead(reader);
-    name = XMLParseUtil::readName(reader);
+    step(name);
   }
 }
 
 void
-Expander::skip(UString &name, UStringView elem)
+Expander::step(UString &name)
 {
-  xmlTextReaderRead(reader);
+  int ret = xmlTextReaderRead(reader);
+  if (ret == -1) {
+    XMLParseUtil::error_and_die(reader, "Parse error.");
+  }
   name = XMLParseUtil::readName(reader);
+}
+
+void
+Expander::skip(UString &name, UStringView elem)
+{
+  step(name);
 
   if(name == Compiler::COMPILER_TEXT_NODE)
   {
@@ -189,8 +197,7 @@ Expander::skip(UString &name, UStringView elem)
       std::cerr << "): Invalid construction." << std::endl;
       exit(EXIT_FAILURE);
     }
-    xmlTextReaderRead(reader);
-    name = XMLParseUtil::readName(reader);
+    step(name);
   }
 
   if(name != elem)
@@ -212,8 +219,7 @@ Expander::procIdentity()
 
     while(true)
     {
-      xmlTextReaderRead(reader);
-      name = XMLParseUtil::readName(reader);
+      step(name);
       if(name == Compiler::COMPILER_IDENTITY_ELEM)
       {
         break;
@@ -237,8 +243,7 @@ Expander::procIdentityGroup()
 
     while(true)
     {
-      xmlTextReaderRead(reader);
-      name = XMLParseUtil::readName(reader);
+      step(name);
       if(name == Compiler::COMPILER_IDENTITYGROUP_ELEM)
       {
         break;
@@ -266,8 +271,7 @@ Expander::procTransduction()
     name.clear();
     while(true)
     {
-      xmlTextReaderRead(reader);
-      name = XMLParseUtil::readName(reader);
+      step(name);
       if(name == Compiler::COMPILER_LEFT_ELEM)
       {
         break;
@@ -283,8 +287,7 @@ Expander::procTransduction()
     name.clear();
     while(true)
     {
-      xmlTextReaderRead(reader);
-      name = XMLParseUtil::readName(reader);
+      step(name);
       if(name == Compiler::COMPILER_RIGHT_ELEM)
       {
         break;
diff --git a/lttoolbox/expander.h b/lttoolbox/expander.h
index 4a54429..b1549c0 100644
--- a/lttoolbox/expander.h
+++ b/lttoolbox/expander.h
@@ -134,6 +134,12 @@ private:
    */
   UString procPar();
 
+  /**
+   * Move to the next node, ending the program on a parse error
+   * @param name the name of the node
+   */
+  void step(UString &name);
+
   /**
    * Skip all document #text nodes before "elem"
    * @param name the name of the node
-- 
2.43.0


From 98939d1d14444a0767ec2512d650041c519e2eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:27 +0000
Subject: [PATCH 60/97] fix: let SAO annotation end, and print words once, at
 the end of the input

---
 lttoolbox/fst_processor.cc | 49 +++++++++++++++++++++++++-------------
 lttoolbox/fst_processor.h  |  8 +++++++
 2 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index bf71104..4e37e69 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2219,6 +2219,7 @@ FSTProcessor::readSAO(InputFile& input)
   UChar32 val = input.get();
   if(input.eof())
   {
+    input_buffer.add(0); // so that it is also met after going back
     return 0;
   }
 
@@ -2265,14 +2266,28 @@ FSTProcessor::readSAO(InputFile& input)
 void
 FSTProcessor::printSAOWord(UStringView lf, UFILE *output)
 {
-  for(unsigned int i = 1, limit = lf.size(); i != limit; i++)
+  lf = lf.substr(1); // the slash before the first reading
+  write(lf.substr(0, lf.find('/')), output);
+}
+
+void
+FSTProcessor::printSAOUnknownWord(UStringView sf, size_t start, UFILE *output)
+{
+  auto limit = firstNotAlpha(sf);
+  if(limit.i_codepoint == 0)
   {
-    if(lf[i] == '/')
-    {
-      break;
-    }
-    u_fputc(lf[i], output);
+    UChar32 first;
+    U16_GET(sf, 0, 0, sf.size(), first);
+    printChar(first, output);
+    limit.i_codepoint = 1;
+  }
+  else
+  {
+    write("<d>"_u, output);
+    write(sf.substr(0, limit.i_utf16), output);
+    write("</d>"_u, output);
   }
+  input_buffer.setPos(start + limit.i_codepoint);
 }
 
 void
@@ -2283,6 +2298,7 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
   State current_state = initial_state;
   UString lf;
   UString sf;
+  size_t last_start = input_buffer.getPos(); // position in input_buffer when sf was last cleared
   int last = 0;
 
   escaped_chars.clear();
@@ -2290,8 +2306,10 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
   escaped_chars.insert('<');
   escaped_chars.insert('>');
 
-  while(UChar32 val = readSAO(input))
+  UChar32 val;
+  do
   {
+    val = readSAO(input);
     // test for final states
     if(current_state.isFinal(all_finals))
     {
@@ -2359,7 +2377,10 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
           {
             u_fputc('\\', output);
           }
-          u_fputc(val, output);
+          if (val)
+          {
+            u_fputc(val, output);
+          }
         }
       }
       else if(last_incond)
@@ -2385,17 +2406,11 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
         }
         while((val = readSAO(input)) && isAlphabetic(val));
 
-        auto limit = firstNotAlpha(sf);
-        unsigned int size = sf.size(); // TODO: change these to character counts
-        input_buffer.back(1+(size-limit.i_utf16));
-        u_fprintf(output, "<d>%S</d>", sf.c_str());
+        printSAOUnknownWord(sf, last_start, output);
       }
       else if(lf.empty())
       {
-        auto limit = firstNotAlpha(sf);
-        unsigned int size = sf.size(); // TODO: change these to character counts
-        input_buffer.back(1+(size-limit.i_utf16));
-        u_fprintf(output, "<d>%S</d>", sf.c_str());
+        printSAOUnknownWord(sf, last_start, output);
       }
       else
       {
@@ -2407,10 +2422,12 @@ FSTProcessor::SAO(InputFile& input, UFILE *output)
       current_state = initial_state;
       lf.clear();
       sf.clear();
+      last_start = input_buffer.getPos();
       last_incond = false;
       last_postblank = false;
     }
   }
+  while(val || !input_buffer.isEmpty()); // at the end, we may have gone back to an earlier match
 
   // print remaining blanks
   flushBlanks(output);
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index 41254a7..9bc3a7f 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -386,6 +386,14 @@ private:
    */
   void printSAOWord(UStringView lf, UFILE *output);
 
+  /**
+   * Prints the unknown word at the start of sf, and goes on behind it
+   * @param sf what was read since the last word
+   * @param start where sf starts in the input buffer
+   * @param output stream where the word is written
+   */
+  void printSAOUnknownWord(UStringView sf, size_t start, UFILE *output);
+
   /**
    * Prints an unknown word
    * @param sf surface form of the word
-- 
2.43.0


From 0380a610b863b7af33dba1c455ce2af205130821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:51 +0000
Subject: [PATCH 61/97] fix: refuse regular expressions that are empty, end in
 a backslash or have a stray parenthesis

---
 lttoolbox/regexp_compiler.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/regexp_compiler.cc b/lttoolbox/regexp_compiler.cc
index b9f8ab0..655eab1 100644
--- a/lttoolbox/regexp_compiler.cc
+++ b/lttoolbox/regexp_compiler.cc
@@ -101,7 +101,7 @@ RegexpCompiler::errorConsuming(int const t)
 void
 RegexpCompiler::consume(int const t)
 {
-  if(token == t)
+  if(token == t && token != FIN_FICHERO)
   {
     index++;
     if(index == input.size())
@@ -123,10 +123,14 @@ void
 RegexpCompiler::compile(std::vector<int32_t> const &er)
 {
   input = er;
-  token = input[0];
+  token = input.empty() ? FIN_FICHERO : input[0];
   index = 0;
   state = transducer.getInitial();
   S();
+  if(token != FIN_FICHERO)
+  {
+    error();
+  }
   transducer.setFinal(state, default_weight);
 }
 
-- 
2.43.0


From 872c9b14b877d828721149ebb19da4504c9386b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:03 +0000
Subject: [PATCH 62/97] fix: recognise the headers of a compiled file that
 comes through a pipe

---
 lttoolbox/compression.cc | 27 +++++++++++++++++++++++++++
 lttoolbox/compression.h  |  9 +++++++++
 lttoolbox/file_utils.cc  | 17 +++++------------
 lttoolbox/trans_exe.cc   | 22 +++++++---------------
 lttoolbox/transducer.cc  | 22 +++++++---------------
 5 files changed, 55 insertions(+), 42 deletions(-)

diff --git a/lttoolbox/compression.cc b/lttoolbox/compression.cc
index 79970e6..4f9ea83 100644
--- a/lttoolbox/compression.cc
+++ b/lttoolbox/compression.cc
@@ -18,6 +18,7 @@
 
 #include <cstdlib>
 #include <cmath>
+#include <cstring>
 #include <limits>
 #include <iostream>
 #include <utf8.h>
@@ -47,6 +48,32 @@ Compression::readByte(FILE *input)
   return value;
 }
 
+bool
+Compression::read_header(char const (&header)[4], FILE *input)
+{
+  unsigned char buf[4]{};
+  fpos_t pos;
+  bool seekable = (fgetpos(input, &pos) == 0);
+  size_t len = fread_unlocked(buf, 1, 4, input);
+  if(len == 4 && memcmp(buf, header, 4) == 0)
+  {
+    return true;
+  }
+  if(seekable)
+  {
+    fsetpos(input, &pos);
+    return false;
+  }
+  while(len > 0)
+  {
+    if(ungetc(buf[--len], input) == EOF)
+    {
+      throw std::runtime_error("Failed to read header");
+    }
+  }
+  return false;
+}
+
 void
 Compression::multibyte_write(unsigned int value, FILE *output)
 {
diff --git a/lttoolbox/compression.h b/lttoolbox/compression.h
index a7aac62..0bd1aac 100644
--- a/lttoolbox/compression.h
+++ b/lttoolbox/compression.h
@@ -124,6 +124,15 @@ private:
   static unsigned char readByte(FILE *input);
 
 public:
+  /**
+   * Read a header of four bytes if it is what comes next, and otherwise
+   * nothing. Works on pipes as well as on files.
+   * @param header the header.
+   * @param input input stream.
+   * @return true if the header was read.
+   */
+  static bool read_header(char const (&header)[4], FILE *input);
+
   /**
    * Encodes an integer value and writes it into the output stream
    * @see multibyte_read()
diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 4eb3d68..97315c3 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -100,18 +100,11 @@ writeTransducerSet(FILE* output, const std::set<UChar32>& letters,
 void
 readShared(FILE* input, std::set<UChar32>& letters, Alphabet& alpha)
 {
-  fpos_t pos;
-  if (fgetpos(input, &pos) == 0) {
-    char header[4]{};
-    fread_unlocked(header, 1, 4, input);
-    if (strncmp(header, HEADER_LTTOOLBOX, 4) == 0) {
-      auto features = read_be<uint64_t>(input);
-      if (features >= LTF_UNKNOWN) {
-        throw std::runtime_error("FST has features that are unknown to this version of lttoolbox - upgrade!");
-      }
-    } else {
-      // Old binary format
-      fsetpos(input, &pos);
+  // there is no header in the old binary format
+  if (Compression::read_header(HEADER_LTTOOLBOX, input)) {
+    auto features = read_be<uint64_t>(input);
+    if (features >= LTF_UNKNOWN) {
+      throw std::runtime_error("FST has features that are unknown to this version of lttoolbox - upgrade!");
     }
   }
 
diff --git a/lttoolbox/trans_exe.cc b/lttoolbox/trans_exe.cc
index b733885..edd66f5 100644
--- a/lttoolbox/trans_exe.cc
+++ b/lttoolbox/trans_exe.cc
@@ -68,21 +68,13 @@ TransExe::read(FILE *input, Alphabet const &alphabet)
 {
   bool read_weights = false;
 
-  fpos_t pos;
-  if (fgetpos(input, &pos) == 0) {
-      char header[4]{};
-      fread_unlocked(header, 1, 4, input);
-      if (strncmp(header, HEADER_TRANSDUCER, 4) == 0) {
-          auto features = read_be<uint64_t>(input);
-          if (features >= TDF_UNKNOWN) {
-              throw std::runtime_error("Transducer has features that are unknown to this version of lttoolbox - upgrade!");
-          }
-          read_weights = (features & TDF_WEIGHTS);
-      }
-      else {
-          // Old binary format
-          fsetpos(input, &pos);
-      }
+  // there is no header in the old binary format
+  if (Compression::read_header(HEADER_TRANSDUCER, input)) {
+    auto features = read_be<uint64_t>(input);
+    if (features >= TDF_UNKNOWN) {
+      throw std::runtime_error("Transducer has features that are unknown to this version of lttoolbox - upgrade!");
+    }
+    read_weights = (features & TDF_WEIGHTS);
   }
 
   TransExe &new_t = *this;
diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 61586d3..4e1e2cd 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -587,21 +587,13 @@ Transducer::read(FILE *input, int const decalage)
 
   bool read_weights = false;
 
-  fpos_t pos;
-  if (fgetpos(input, &pos) == 0) {
-      char header[4]{};
-      fread_unlocked(header, 1, 4, input);
-      if (strncmp(header, HEADER_TRANSDUCER, 4) == 0) {
-          auto features = read_be<uint64_t>(input);
-          if (features >= TDF_UNKNOWN) {
-              throw std::runtime_error("Transducer has features that are unknown to this version of lttoolbox - upgrade!");
-          }
-          read_weights = (features & TDF_WEIGHTS);
-      }
-      else {
-          // Old binary format
-          fsetpos(input, &pos);
-      }
+  // there is no header in the old binary format
+  if (Compression::read_header(HEADER_TRANSDUCER, input)) {
+    auto features = read_be<uint64_t>(input);
+    if (features >= TDF_UNKNOWN) {
+      throw std::runtime_error("Transducer has features that are unknown to this version of lttoolbox - upgrade!");
+    }
+    read_weights = (features & TDF_WEIGHTS);
   }
 
   new_t.initial = Compression::multibyte_read(input);
-- 
2.43.0


From 0e003ffcf1ba5f0b7fbb6218dfa691198e8a2ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:03 +0000
Subject: [PATCH 63/97] fix: refuse compiled files that are cut short

---
 lttoolbox/compression.cc | 9 +++++++++
 lttoolbox/compression.h  | 6 ++++++
 lttoolbox/file_utils.cc  | 3 +++
 lttoolbox/trans_exe.cc   | 2 ++
 lttoolbox/transducer.cc  | 1 +
 5 files changed, 21 insertions(+)

diff --git a/lttoolbox/compression.cc b/lttoolbox/compression.cc
index 4f9ea83..79b3e87 100644
--- a/lttoolbox/compression.cc
+++ b/lttoolbox/compression.cc
@@ -74,6 +74,15 @@ Compression::read_header(char const (&header)[4], FILE *input)
   return false;
 }
 
+void
+Compression::check_complete(FILE *input)
+{
+  if(feof(input) || ferror(input))
+  {
+    throw std::runtime_error("Unexpected end of compiled file");
+  }
+}
+
 void
 Compression::multibyte_write(unsigned int value, FILE *output)
 {
diff --git a/lttoolbox/compression.h b/lttoolbox/compression.h
index 0bd1aac..51bd51a 100644
--- a/lttoolbox/compression.h
+++ b/lttoolbox/compression.h
@@ -133,6 +133,12 @@ public:
    */
   static bool read_header(char const (&header)[4], FILE *input);
 
+  /**
+   * Throw an exception if something was read beyond the end of the input.
+   * @param input input stream.
+   */
+  static void check_complete(FILE *input);
+
   /**
    * Encodes an integer value and writes it into the output stream
    * @see multibyte_read()
diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index 97315c3..f9dbd31 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -113,6 +113,7 @@ readShared(FILE* input, std::set<UChar32>& letters, Alphabet& alpha)
   }
 
   alpha.read(input);
+  Compression::check_complete(input);
 }
 
 void
@@ -126,6 +127,7 @@ readTransducerSet(FILE* input, std::set<UChar32>& letters,
     UString name = Compression::string_read(input);
     trans[name].read(input);
   }
+  Compression::check_complete(input);
 }
 
 void
@@ -139,4 +141,5 @@ readTransducerSet(FILE* input, std::set<UChar32>& letters,
     UString name = Compression::string_read(input);
     trans[name].read(input, alpha);
   }
+  Compression::check_complete(input);
 }
diff --git a/lttoolbox/trans_exe.cc b/lttoolbox/trans_exe.cc
index edd66f5..81dd09d 100644
--- a/lttoolbox/trans_exe.cc
+++ b/lttoolbox/trans_exe.cc
@@ -101,6 +101,7 @@ TransExe::read(FILE *input, Alphabet const &alphabet)
 
 
   base = Compression::multibyte_read(input);
+  Compression::check_complete(input);
 
   int number_of_states = base;
   int current_state = 0;
@@ -135,6 +136,7 @@ TransExe::read(FILE *input, Alphabet const &alphabet)
     number_of_states--;
     current_state++;
   }
+  Compression::check_complete(input);
 }
 
 void
diff --git a/lttoolbox/transducer.cc b/lttoolbox/transducer.cc
index 4e1e2cd..46ead09 100644
--- a/lttoolbox/transducer.cc
+++ b/lttoolbox/transducer.cc
@@ -641,6 +641,7 @@ Transducer::read(FILE *input, int const decalage)
     number_of_states--;
     current_state++;
   }
+  Compression::check_complete(input);
 
   *this = new_t;
 }
-- 
2.43.0


From 7ffe82ae10e5c464270629e3cfe088bcbc1c3fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:03 +0000
Subject: [PATCH 64/97] fix: keep statistics out of a compiled file that is
 written to standard output

---
 lttoolbox/file_utils.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index f9dbd31..b9c845e 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -77,11 +77,13 @@ writeTransducerSet(FILE* output, UStringView letters,
   Compression::string_write(letters, output);
   alpha.write(output);
   Compression::multibyte_write(trans.size(), output);
+  // the statistics may not get into the compiled file
+  std::ostream& stats = (output == stdout ? std::cerr : std::cout);
   for (auto& it : trans) {
     Compression::string_write(it.first, output);
     it.second.write(output);
-    std::cout << it.first << " " << it.second.size();
-    std::cout << " " << it.second.numberOfTransitions() << std::endl;
+    stats << it.first << " " << it.second.size();
+    stats << " " << it.second.numberOfTransitions() << std::endl;
   }
 }
 
-- 
2.43.0


From 2d179c5fd6176b6560606da3b4756bff6252ba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:03 +0000
Subject: [PATCH 65/97] fix: report compiled files that cannot be written
 completely

---
 lttoolbox/file_utils.cc   | 10 ++++++++++
 lttoolbox/file_utils.h    |  2 ++
 lttoolbox/lt_append.cc    |  2 +-
 lttoolbox/lt_apply_acx.cc |  2 +-
 lttoolbox/lt_comp.cc      |  2 +-
 lttoolbox/lt_compose.cc   |  2 +-
 lttoolbox/lt_invert.cc    |  2 +-
 lttoolbox/lt_restrict.cc  |  2 +-
 lttoolbox/lt_trim.cc      |  2 +-
 9 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/lttoolbox/file_utils.cc b/lttoolbox/file_utils.cc
index b9c845e..473ffd3 100644
--- a/lttoolbox/file_utils.cc
+++ b/lttoolbox/file_utils.cc
@@ -50,6 +50,16 @@ openOutBinFile(const std::string& fname)
   }
 }
 
+void
+closeOutBinFile(FILE* output)
+{
+  bool failed = ferror(output);
+  if (fclose(output) != 0 || failed) {
+    std::cerr << "Error: Cannot write the whole output file." << std::endl;
+    exit(EXIT_FAILURE);
+  }
+}
+
 FILE*
 openInBinFile(const std::string& fname)
 {
diff --git a/lttoolbox/file_utils.h b/lttoolbox/file_utils.h
index 669e364..4cb8467 100644
--- a/lttoolbox/file_utils.h
+++ b/lttoolbox/file_utils.h
@@ -25,6 +25,8 @@
 
 UFILE* openOutTextFile(const std::string& fname);
 FILE* openOutBinFile(const std::string& fname);
+// exits with an error if not everything could be written
+void closeOutBinFile(FILE* output);
 FILE* openInBinFile(const std::string& fname);
 
 void writeTransducerSet(FILE* output, UStringView letters,
diff --git a/lttoolbox/lt_append.cc b/lttoolbox/lt_append.cc
index a15d0b7..d6db74c 100644
--- a/lttoolbox/lt_append.cc
+++ b/lttoolbox/lt_append.cc
@@ -66,7 +66,7 @@ int main(int argc, char *argv[])
 
   fclose(input1);
   fclose(input2);
-  fclose(output);
+  closeOutBinFile(output);
 
   return 0;
 }
diff --git a/lttoolbox/lt_apply_acx.cc b/lttoolbox/lt_apply_acx.cc
index fa5d079..e536c77 100644
--- a/lttoolbox/lt_apply_acx.cc
+++ b/lttoolbox/lt_apply_acx.cc
@@ -46,6 +46,6 @@ int main(int argc, char* argv[])
   writeTransducerSet(output, letters, alpha, trans);
 
   fclose(input);
-  fclose(output);
+  closeOutBinFile(output);
   return 0;
 }
diff --git a/lttoolbox/lt_comp.cc b/lttoolbox/lt_comp.cc
index 29a3bde..c894c50 100644
--- a/lttoolbox/lt_comp.cc
+++ b/lttoolbox/lt_comp.cc
@@ -177,5 +177,5 @@ int main(int argc, char *argv[])
   {
     c.write(output);
   }
-  fclose(output);
+  closeOutBinFile(output);
 }
diff --git a/lttoolbox/lt_compose.cc b/lttoolbox/lt_compose.cc
index f97ab4d..ce0bf25 100644
--- a/lttoolbox/lt_compose.cc
+++ b/lttoolbox/lt_compose.cc
@@ -132,7 +132,7 @@ int main(int argc, char *argv[])
 
   fclose(transducer1);
   fclose(transducer2);
-  fclose(composition);
+  closeOutBinFile(composition);
 
   return 0;
 }
diff --git a/lttoolbox/lt_invert.cc b/lttoolbox/lt_invert.cc
index bbe5584..e638d1d 100644
--- a/lttoolbox/lt_invert.cc
+++ b/lttoolbox/lt_invert.cc
@@ -44,6 +44,6 @@ int main(int argc, char* argv[])
   writeTransducerSet(output, alphabetic_chars, alphabet, transducers);
 
   fclose(input);
-  fclose(output);
+  closeOutBinFile(output);
   return EXIT_SUCCESS;
 }
diff --git a/lttoolbox/lt_restrict.cc b/lttoolbox/lt_restrict.cc
index def721a..ba3834d 100644
--- a/lttoolbox/lt_restrict.cc
+++ b/lttoolbox/lt_restrict.cc
@@ -117,6 +117,6 @@ int main(int argc, char* argv[])
   writeTransducerSet(output, letters, alpha, trans);
 
   fclose(input);
-  fclose(output);
+  closeOutBinFile(output);
   return 0;
 }
diff --git a/lttoolbox/lt_trim.cc b/lttoolbox/lt_trim.cc
index 2a18584..e34d703 100644
--- a/lttoolbox/lt_trim.cc
+++ b/lttoolbox/lt_trim.cc
@@ -125,7 +125,7 @@ int main(int argc, char *argv[])
 
   fclose(analyser);
   fclose(bidix);
-  fclose(output);
+  closeOutBinFile(output);
 
   return 0;
 }
-- 
2.43.0


From cc1330663ed2227b2871102e8ba23af79d33d5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:12 +0000
Subject: [PATCH 66/97] fix: refuse dictionaries and translation memories that
 end in a parse error

---
 lttoolbox/compiler.cc     | 1 +
 lttoolbox/expander.cc     | 1 +
 lttoolbox/tmx_compiler.cc | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index b52a0bb..dfb80eb 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -62,6 +62,7 @@ Compiler::parse(std::string const &file, UStringView dir)
   if(ret != 0)
   {
     std::cerr << "Error: Parse error at the end of input." << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   xmlFreeTextReader(reader);
diff --git a/lttoolbox/expander.cc b/lttoolbox/expander.cc
index bd9299d..af122a8 100644
--- a/lttoolbox/expander.cc
+++ b/lttoolbox/expander.cc
@@ -48,6 +48,7 @@ Expander::expand(std::string const &file, UFILE* output)
   if(ret != 0)
   {
     std::cerr << "Error: Parse error at the end of input." << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   xmlFreeTextReader(reader);
diff --git a/lttoolbox/tmx_compiler.cc b/lttoolbox/tmx_compiler.cc
index 8ea56cc..cdf465f 100644
--- a/lttoolbox/tmx_compiler.cc
+++ b/lttoolbox/tmx_compiler.cc
@@ -62,6 +62,7 @@ TMXCompiler::parse(std::string const &file, UStringView lo, UStringView lm)
   if(ret != 0)
   {
     std::cerr << "Error: Parse error at the end of input." << std::endl;
+    exit(EXIT_FAILURE);
   }
 
   xmlFreeTextReader(reader);
-- 
2.43.0


From 5b3d6cf95be4f2289ab2a0791bb7db85004a03e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:30 +0000
Subject: [PATCH 67/97] fix: refuse tables of ignored or restored characters
 that do not parse

---
 lttoolbox/fst_processor.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 4e37e69..f458372 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -81,6 +81,11 @@ FSTProcessor::parseICX(std::string const &file)
       procNodeICX();
       ret = xmlTextReaderRead(reader);
     }
+    if(ret != 0)
+    {
+      std::cerr << "Error: cannot parse '" << file << "'." << std::endl;
+      exit(EXIT_FAILURE);
+    }
     // No point trying to process ignored chars if there are none
     if(ignored_chars.size() == 0)
     {
@@ -106,6 +111,11 @@ FSTProcessor::parseRCX(std::string const &file)
       procNodeRCX();
       ret = xmlTextReaderRead(reader);
     }
+    if(ret != 0)
+    {
+      std::cerr << "Error: cannot parse '" << file << "'." << std::endl;
+      exit(EXIT_FAILURE);
+    }
   }
 }
 
-- 
2.43.0


From bcf6be8499777ecd4ffae14dfeb220192c228ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:30 +0000
Subject: [PATCH 68/97] fix: read whole characters from tables of ignored or
 restored characters

---
 lttoolbox/fst_processor.cc | 29 ++++++++++++++++++++++++++---
 lttoolbox/fst_processor.h  |  5 +++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index f458372..75e532f 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -119,6 +119,20 @@ FSTProcessor::parseRCX(std::string const &file)
   }
 }
 
+int32_t
+FSTProcessor::readCharValue()
+{
+  std::vector<int32_t> value;
+  ustring_to_vec32(XMLParseUtil::attrib(reader, XML_VALUE_ATTR), value);
+  if(value.empty())
+  {
+    std::cerr << "Error (" << xmlTextReaderGetParserLineNumber(reader);
+    std::cerr << "): Missing value attribute." << std::endl;
+    exit(EXIT_FAILURE);
+  }
+  return value[0];
+}
+
 void
 FSTProcessor::procNodeICX()
 {
@@ -133,7 +147,10 @@ FSTProcessor::procNodeICX()
   }
   else if(name == XML_CHAR_ELEM)
   {
-    ignored_chars.insert(static_cast<int32_t>(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)[0]));
+    if(xmlTextReaderNodeType(reader) != XML_READER_TYPE_END_ELEMENT)
+    {
+      ignored_chars.insert(readCharValue());
+    }
   }
   else if(name == XML_COMMENT_NODE)
   {
@@ -167,11 +184,17 @@ FSTProcessor::procNodeRCX()
   }
   else if(name == XML_CHAR_ELEM)
   {
-    rcx_current_char = static_cast<int32_t>(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)[0]);
+    if(xmlTextReaderNodeType(reader) != XML_READER_TYPE_END_ELEMENT)
+    {
+      rcx_current_char = readCharValue();
+    }
   }
   else if(name == XML_RESTORE_CHAR_ELEM)
   {
-    rcx_map[rcx_current_char].insert(static_cast<int32_t>(XMLParseUtil::attrib(reader, XML_VALUE_ATTR)[0]));
+    if(xmlTextReaderNodeType(reader) != XML_READER_TYPE_END_ELEMENT)
+    {
+      rcx_map[rcx_current_char].insert(readCharValue());
+    }
   }
   else if(name == XML_COMMENT_NODE)
   {
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index 9bc3a7f..20dbf25 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -454,6 +454,11 @@ private:
   bool step_biltrans(UStringView word, std::vector<UString>& result, UString& queue);
 
   void procNodeICX();
+
+  /**
+   * Reads the character in the value attribute of the current element
+   */
+  int32_t readCharValue();
   void procNodeRCX();
   void initDefaultIgnoredCharacters();
 
-- 
2.43.0


From 5747add4bc7e7de057c25b2cafd118cda441d9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:30 +0000
Subject: [PATCH 69/97] fix: lower any letter, not only ASCII ones, when
 restoring characters

---
 lttoolbox/fst_processor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 75e532f..2a597fb 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -971,14 +971,14 @@ FSTProcessor::analysis(InputFile& input, UFILE *output)
       }
       else if(rcx_map.find(u_tolower(val)) != rcx_map.end())
       {
-        rcx_map_ptr = rcx_map.find(tolower(val));
-        tmpset.insert(tolower(val));
+        rcx_map_ptr = rcx_map.find(u_tolower(val));
+        tmpset.insert(u_tolower(val));
         tmpset.insert(rcx_map_ptr->second.begin(), rcx_map_ptr->second.end());
         current_state.step(val, tmpset);
       }
       else
       {
-        tmpset.insert(tolower(val));
+        tmpset.insert(u_tolower(val));
         current_state.step(val, tmpset);
       }
     }
-- 
2.43.0


From 13624a60063f70cf993c5810b03fbd04b8155f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:52 +0000
Subject: [PATCH 70/97] fix: let lt-tmxcomp stop at a parse error within a
 translation unit

---
 lttoolbox/tmx_compiler.cc | 27 +++++++++++++++++----------
 lttoolbox/tmx_compiler.h  |  6 ++++++
 2 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/lttoolbox/tmx_compiler.cc b/lttoolbox/tmx_compiler.cc
index cdf465f..149d911 100644
--- a/lttoolbox/tmx_compiler.cc
+++ b/lttoolbox/tmx_compiler.cc
@@ -72,6 +72,18 @@ TMXCompiler::parse(std::string const &file, UStringView lo, UStringView lm)
   transducer.minimize();
 }
 
+void
+TMXCompiler::readNext(UString &name)
+{
+  if(xmlTextReaderRead(reader) != 1)
+  {
+    std::cerr << "Error (" << xmlTextReaderGetParserLineNumber(reader);
+    std::cerr << "): Parse error." << std::endl;
+    exit(EXIT_FAILURE);
+  }
+  name = XMLParseUtil::readName(reader);
+}
+
 void
 TMXCompiler::requireEmptyError(UStringView name)
 {
@@ -112,16 +124,14 @@ TMXCompiler::skipBlanks(UString &name)
       }
     }
 
-    xmlTextReaderRead(reader);
-    name = XMLParseUtil::readName(reader);
+    readNext(name);
   }
 }
 
 void
 TMXCompiler::skip(UString &name, UStringView elem)
 {
-  xmlTextReaderRead(reader);
-  name = XMLParseUtil::readName(reader);
+  readNext(name);
 
   while(name == TMX_COMPILER_TEXT_NODE || name == TMX_COMPILER_COMMENT_NODE)
   {
@@ -134,8 +144,7 @@ TMXCompiler::skip(UString &name, UStringView elem)
         exit(EXIT_FAILURE);
       }
     }
-    xmlTextReaderRead(reader);
-    name = XMLParseUtil::readName(reader);
+    readNext(name);
   }
 
   if(name != elem)
@@ -340,8 +349,7 @@ TMXCompiler::procTU()
 
       while(name != TMX_COMPILER_TUV_ELEM || type != XML_READER_TYPE_END_ELEMENT)
       {
-        xmlTextReaderRead(reader);
-        name = XMLParseUtil::readName(reader);
+        readNext(name);
         type = xmlTextReaderNodeType(reader);
 
         if(name == TMX_COMPILER_TEXT_NODE)
@@ -357,8 +365,7 @@ TMXCompiler::procTU()
         }
       }
     }
-    xmlTextReaderRead(reader);
-    name = XMLParseUtil::readName(reader);
+    readNext(name);
     type = xmlTextReaderNodeType(reader);
   }
 
diff --git a/lttoolbox/tmx_compiler.h b/lttoolbox/tmx_compiler.h
index ab5f3e6..eb0c1cf 100644
--- a/lttoolbox/tmx_compiler.h
+++ b/lttoolbox/tmx_compiler.h
@@ -110,6 +110,12 @@ private:
    */
   void skip(UString &name, UStringView elem);
 
+  /**
+   * Go on to the next node and get its name; it is an error if there is none
+   * @param name the name of the node
+   */
+  void readNext(UString &name);
+
   /**
    * Skip all blank #text nodes before "name"
    * @param name the name of the node
-- 
2.43.0


From 853837e2d4a468073ef109db0f8c05c00af9b978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:52 +0000
Subject: [PATCH 71/97] fix: let empty elements of a translation memory be
 empty

---
 lttoolbox/tmx_compiler.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/tmx_compiler.cc b/lttoolbox/tmx_compiler.cc
index 149d911..b0e5002 100644
--- a/lttoolbox/tmx_compiler.cc
+++ b/lttoolbox/tmx_compiler.cc
@@ -324,9 +324,15 @@ TMXCompiler::procTU()
   std::vector<int> meta;
   std::vector<int> foo;
 
+  if(xmlTextReaderIsEmptyElement(reader))
+  {
+    return;
+  }
+
   while(name != TMX_COMPILER_TU_ELEM || type != XML_READER_TYPE_END_ELEMENT)
   {
-    if(name == TMX_COMPILER_TUV_ELEM && type != XML_READER_TYPE_END_ELEMENT)
+    if(name == TMX_COMPILER_TUV_ELEM && type != XML_READER_TYPE_END_ELEMENT &&
+       !xmlTextReaderIsEmptyElement(reader))
     {
       UString l = attrib(TMX_COMPILER_XMLLANG_ATTR);
       if(l.empty()) {
-- 
2.43.0


From c1b1c6e19b5ef10f2e1efe7dfba8384f3c2af1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:52 +0000
Subject: [PATCH 72/97] fix: let lt-tmxcomp report files that it cannot write

---
 lttoolbox/lt_tmxcomp.cc   | 10 +++-------
 lttoolbox/tmx_compiler.cc |  8 +++++---
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/lttoolbox/lt_tmxcomp.cc b/lttoolbox/lt_tmxcomp.cc
index 914f30a..3a9398e 100644
--- a/lttoolbox/lt_tmxcomp.cc
+++ b/lttoolbox/lt_tmxcomp.cc
@@ -16,6 +16,7 @@
  */
 #include <lttoolbox/tmx_compiler.h>
 #include <lttoolbox/lt_locale.h>
+#include <lttoolbox/file_utils.h>
 #include <cstdlib>
 #include <iostream>
 #include <libgen.h>
@@ -104,12 +105,7 @@ int main(int argc, char *argv[])
 
   c.parse(argv[argc-2], lo, lm);
 
-  FILE *output = fopen(argv[argc-1], "wb");
-  if(!output)
-  {
-    std::cerr << "Error: Cannot open file '" << argv[2] << "'." << std::endl;
-    exit(EXIT_FAILURE);
-  }
+  FILE *output = openOutBinFile(argv[argc-1]);
   c.write(output);
-  fclose(output);
+  closeOutBinFile(output);
 }
diff --git a/lttoolbox/tmx_compiler.cc b/lttoolbox/tmx_compiler.cc
index b0e5002..18adb53 100644
--- a/lttoolbox/tmx_compiler.cc
+++ b/lttoolbox/tmx_compiler.cc
@@ -444,9 +444,11 @@ TMXCompiler::write(FILE *output)
   Compression::multibyte_write(0, output); // keeping file format
   transducer.write(output);
 
-  std::cout << origin_language << "->" << meta_language << " ";
-  std::cout << transducer.size() << " " << transducer.numberOfTransitions();
-  std::cout << std::endl;
+  // the statistics may not get into the compiled file
+  std::ostream& stats = (output == stdout ? std::cerr : std::cout);
+  stats << origin_language << "->" << meta_language << " ";
+  stats << transducer.size() << " " << transducer.numberOfTransitions();
+  stats << std::endl;
 }
 
 void
-- 
2.43.0


From b1d7b72e33d789b601f3f07958380dd578e6d57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:52 +0000
Subject: [PATCH 73/97] fix: let lt-tmxproc refuse malformed input instead of
 dying of it

---
 lttoolbox/lt_tmxproc.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/lt_tmxproc.cc b/lttoolbox/lt_tmxproc.cc
index 3746445..cd61f36 100644
--- a/lttoolbox/lt_tmxproc.cc
+++ b/lttoolbox/lt_tmxproc.cc
@@ -48,7 +48,13 @@ int main(int argc, char *argv[])
   }
   UFILE* output = openOutTextFile(cli.get_files()[2].c_str());
 
-  fstp.tm_analysis(input, output, tm_mode);
+  try {
+    fstp.tm_analysis(input, output, tm_mode);
+  } catch (std::exception& e) {
+    std::cerr << e.what();
+    u_fputc('\0', output); // cf. description of cli["null-flush"]
+    return EXIT_FAILURE;
+  }
 
   u_fclose(output);
   return EXIT_SUCCESS;
-- 
2.43.0


From a2e025afde0a1099f9f877e6ab08f85351f3778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:58 +0000
Subject: [PATCH 74/97] fix: let lt-merge and lt-paradigm refuse malformed
 input instead of dying of it

---
 lttoolbox/lt_merge.cc    | 15 ++++++++++-----
 lttoolbox/lt_paradigm.cc | 31 ++++++++++++++++++-------------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/lttoolbox/lt_merge.cc b/lttoolbox/lt_merge.cc
index d176f20..80863cf 100644
--- a/lttoolbox/lt_merge.cc
+++ b/lttoolbox/lt_merge.cc
@@ -43,11 +43,16 @@ int main(int argc, char *argv[])
   FSTProcessor fstp;
   fstp.setNullFlush(true); // cf. description of cli["null-flush"]
   fstp.initBiltrans();
-  if(unmerge) {
-    fstp.quoteUnmerge(input, output);
-  }
-  else {
-    fstp.quoteMerge(input, output);
+  try {
+    if(unmerge) {
+      fstp.quoteUnmerge(input, output);
+    }
+    else {
+      fstp.quoteMerge(input, output);
+    }
+  } catch (std::exception& e) {
+    std::cerr << e.what();
+    return EXIT_FAILURE;
   }
 
   return 0;
diff --git a/lttoolbox/lt_paradigm.cc b/lttoolbox/lt_paradigm.cc
index e0d5858..c18c0f3 100644
--- a/lttoolbox/lt_paradigm.cc
+++ b/lttoolbox/lt_paradigm.cc
@@ -192,20 +192,25 @@ int main(int argc, char* argv[])
   }
   UFILE* output = openOutTextFile(cli.get_files()[2]);
 
-  UString cur;
-  do {
-    UChar32 c = input.get();
-    if (c == '\n' || c == '\0' || c == U_EOF) {
-      process(cur, trans, alpha, letters, tags, output, sort);
-      if (c != U_EOF) {
-        u_fputc(c, output);
-        u_fflush(output);
+  try {
+    UString cur;
+    do {
+      UChar32 c = input.get();
+      if (c == '\n' || c == '\0' || c == U_EOF) {
+        process(cur, trans, alpha, letters, tags, output, sort);
+        if (c != U_EOF) {
+          u_fputc(c, output);
+          u_fflush(output);
+        }
+        cur.clear();
+      } else {
+        cur += c;
       }
-      cur.clear();
-    } else {
-      cur += c;
-    }
-  } while (!input.eof());
+    } while (!input.eof());
+  } catch (std::exception& e) {
+    std::cerr << e.what();
+    return EXIT_FAILURE;
+  }
 
   u_fclose(output);
   return 0;
-- 
2.43.0


From 39b1c7e00e8b826d1229b0d8fce202214496fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:02 +0000
Subject: [PATCH 75/97] fix: keep the text of what lt-tmxproc reads, to the end
 of the input

---
 lttoolbox/fst_processor.cc | 210 +++++++++++++------------------------
 lttoolbox/fst_processor.h  |   7 +-
 lttoolbox/state.cc         |   5 +-
 3 files changed, 77 insertions(+), 145 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 2a597fb..d15069c 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -280,80 +280,72 @@ FSTProcessor::readAnalysis(InputFile& input)
 int
 FSTProcessor::readTMAnalysis(InputFile& input)
 {
-  isLastBlankTM = false;
   if(!input_buffer.isEmpty())
   {
     return input_buffer.next();
   }
 
   UChar32 val = input.get();
-  int32_t altval = 0;
-  if(input.eof())
+  int32_t symbol = val;
+  UString text;
+  if(input.eof() || val == 0)
   {
-    return 0;
+    symbol = 0;
   }
-
-  if(escaped_chars.find(val) != escaped_chars.end() || u_isdigit(val))
+  else if(u_isdigit(val))
+  {
+    do
+    {
+      text += val;
+      val = input.get();
+    } while(u_isdigit(val));
+    input.unget(val);
+    symbol = alphabet(u"<n>");
+  }
+  else if(escaped_chars.find(val) != escaped_chars.end())
   {
     switch(val)
     {
       case '<':
-        altval = alphabet(input.readBlock('<', '>'));
-        input_buffer.add(altval);
-        return altval;
+        text = input.readBlock('<', '>');
+        alphabet.includeSymbol(text);
+        symbol = alphabet(text);
+        break;
 
       case '[':
         val = input.get();
 
         if(val == '[')
         {
-          blankqueue.push(input.finishWBlank());
+          text = input.finishWBlank();
         }
         else
         {
           input.unget(val);
-          blankqueue.push(input.readBlock('[', ']'));
+          text = input.readBlock('[', ']');
         }
-
-        input_buffer.add(static_cast<int32_t>(' '));
-        isLastBlankTM = true;
-        return static_cast<int32_t>(' ');
+        symbol = ' ';
+        break;
 
       case '\\':
-        val = input.get();
-        input_buffer.add(static_cast<int32_t>(val));
-        return val;
-      case '0':
-      case '1':
-      case '2':
-      case '3':
-      case '4':
-      case '5':
-      case '6':
-      case '7':
-      case '8':
-      case '9':
-        {
-          UString ws;
-          do
-          {
-            ws += val;
-            val = input.get();
-          } while(u_isdigit(val));
-          input.unget(val);
-          input_buffer.add(alphabet(u"<n>"));
-          numbers.push_back(ws);
-          return alphabet(u"<n>");
-        }
+        symbol = input.get();
+        text += val;
+        text += symbol;
         break;
 
       default:
         streamError();
     }
   }
+  else
+  {
+    text += val;
+  }
 
-  input_buffer.add(val);
-  return val;
+  input_buffer.add(symbol);
+  tm_texts.resize(input_buffer.getSize());
+  tm_texts[input_buffer.getPos()-1] = text;
+  return symbol;
 }
 
 bool
@@ -1195,133 +1187,73 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
   UString lf;     //lexical form
   UString sf;     //surface form
   int last = 0;
+  const int32_t number = alphabet(u"<n>");
+  // the numbers and superblanks of the surface form
+  std::vector<UString> numbers;
+  std::queue<UString> blanks;
 
-  while(int32_t val = readTMAnalysis(input))
+  while(true)
   {
+    int32_t val = readTMAnalysis(input);
+    UString const text = tm_texts[input_buffer.getPos()-1];
+
     // test for final states
     if(current_state.isFinal(all_finals))
     {
-      if(u_ispunct(val) || (tm_mode == tm_space && u_isspace(val)))
+      if(val == 0 || u_ispunct(val) || (tm_mode == tm_space && u_isspace(val)))
       {
+        std::queue<UString> my_blanks = blanks;
         lf = current_state.filterFinalsTM(all_finals, alphabet,
                                           escaped_chars,
-                                          blankqueue, numbers).substr(1);
+                                          my_blanks, numbers).substr(1);
         last = input_buffer.getPos();
-        numbers.clear();
       }
     }
-    else if(sf.empty() && u_isspace(val))
-    {
-      lf.append(sf);
-      last = input_buffer.getPos();
-    }
 
     current_state.step_case(val, false);
 
     if(current_state.size() != 0)
     {
-      if(val == -1)
-      {
-        sf.append(numbers[numbers.size()-1]);
-      }
-      else if(isLastBlankTM && val == ' ')
+      if(val == number)
       {
-        sf.append(blankqueue.back());
+        numbers.push_back(text);
       }
-      else
+      else if(text.size() > 1 && text[0] == '[')
       {
-        alphabet.getSymbol(sf, val);
+        blanks.push(text);
       }
+      sf.append(text);
     }
     else
     {
-      if((u_isspace(val) || u_ispunct(val)) && sf.empty())
+      if(!lf.empty())
       {
-        if(u_isspace(val))
-        {
-          printSpace(val, output);
-        }
-        else
-        {
-          if(isEscaped(val))
-          {
-            u_fputc('\\', output);
-          }
-          u_fputc(val, output);
-        }
+        u_fprintf(output, "[%S]", lf.c_str());
+        input_buffer.setPos(last);
+        input_buffer.back(1);
       }
-      else if(!u_isspace(val) && !u_ispunct(val) &&
-              ((sf.size()-input_buffer.diffPrevPos(last)) > lastBlank(sf) ||
-               lf.empty()))
+      else if(!sf.empty() && (val == 0 || u_isspace(val) || u_ispunct(val)))
+      {
+        write(sf, output);
+        input_buffer.back(1);
+      }
+      else if(val == 0)
+      {
+        return;
+      }
+      else if(u_isspace(val) || u_ispunct(val))
+      {
+        write(text, output);
+      }
+      else
       {
-
         do
         {
-          if(val == -1)
-          {
-            sf.append(numbers[numbers.size()-1]);
-          }
-          else if(isLastBlankTM && val == ' ')
-          {
-            sf.append(blankqueue.back());
-          }
-          else
-          {
-            alphabet.getSymbol(sf, val);
-          }
+          sf.append(tm_texts[input_buffer.getPos()-1]);
         }
         while((val = readTMAnalysis(input)) && !u_isspace(val) && !u_ispunct(val));
 
-        if(val == 0)
-        {
-          write(sf, output);
-          return;
-        }
-
-        input_buffer.back(1);
         write(sf, output);
-
-        while(blankqueue.size() > 0)
-        {
-          if(blankqueue.size() == 1 && isLastBlankTM)
-          {
-            break;
-          }
-          blankqueue.pop();
-        }
-
-/*
-        unsigned int limit = sf.find(' ');
-        unsigned int size = sf.size();
-        limit = (limit == static_cast<unsigned int>(UString::npos)?size:limit);
-        input_buffer.back(1+(size-limit));
-        write(sf.substr(0, limit), output);
-*/      }
-      else if(lf.empty())
-      {
-/*        unsigned int limit = sf.find(' ');
-        unsigned int size = sf.size();
-        limit = (limit == static_cast<unsigned int >(UString::npos)?size:limit);
-        input_buffer.back(1+(size-limit));
-        write(sf.substr(0, limit), output);
-*/
-        input_buffer.back(1);
-        write(sf, output);
-
-        while(blankqueue.size() > 0)
-        {
-          if(blankqueue.size() == 1 && isLastBlankTM)
-          {
-            break;
-          }
-          blankqueue.pop();
-        }
-
-      }
-      else
-      {
-        u_fprintf(output, "[%S]", lf.c_str());
-        input_buffer.setPos(last);
         input_buffer.back(1);
       }
 
@@ -1329,11 +1261,9 @@ FSTProcessor::tm_analysis(InputFile& input, UFILE *output, TranslationMemoryMode
       lf.clear();
       sf.clear();
       numbers.clear();
+      blanks = std::queue<UString>();
     }
   }
-
-  // print remaining blanks
-  flushBlanks(output);
 }
 
 
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index 20dbf25..1842559 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -403,7 +403,10 @@ private:
 
   void initDecompositionSymbols();
 
-  std::vector<UString> numbers;
+  /**
+   * The text of each symbol in the input buffer, used by readTMAnalysis()
+   */
+  std::vector<UString> tm_texts;
   int readTMAnalysis(InputFile& input);
 
   unsigned int lastBlank(UStringView str);
@@ -462,8 +465,6 @@ private:
   void procNodeRCX();
   void initDefaultIgnoredCharacters();
 
-  bool isLastBlankTM = false;
-
   xmlTextReaderPtr reader;
 
   static constexpr size_t max_case_insensitive_state_size = 65536;
diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index 51ac779..ef143f3 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -758,7 +758,8 @@ State::filterFinalsTM(std::map<Node *, double> const &finals,
             for(unsigned int k = (unsigned int) j+3, limit2 = fragment[i].size();
                 k != limit2; k++)
             {
-              if(u_isdigit(fragment[i][k]))
+              if(fragment[i][k] >= '0' && fragment[i][k] <= '9' &&
+                 num <= (int) numbers.size())
               {
                 num = num * 10;
                 num += (int) fragment[i][k] - 48;
@@ -769,7 +770,7 @@ State::filterFinalsTM(std::map<Node *, double> const &finals,
                 break;
               }
             }
-            if(correct)
+            if(correct && num > 0 && num <= (int) numbers.size())
             {
               fragment[i] = fragment[i].substr(0, j) + numbers[num - 1];
               substitute = true;
-- 
2.43.0


From 3af253314c6776c4b59cf0b87e4b0e604c6e2543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:10 +0000
Subject: [PATCH 76/97] fix: let --no-default-ignore hold together with
 --ignored-chars

---
 lttoolbox/fst_processor.cc | 10 +++-------
 lttoolbox/fst_processor.h  |  5 +++++
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index d15069c..f2ab27c 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -86,11 +86,6 @@ FSTProcessor::parseICX(std::string const &file)
       std::cerr << "Error: cannot parse '" << file << "'." << std::endl;
       exit(EXIT_FAILURE);
     }
-    // No point trying to process ignored chars if there are none
-    if(ignored_chars.size() == 0)
-    {
-      useIgnoredChars = false;
-    }
   }
 }
 
@@ -167,7 +162,7 @@ FSTProcessor::procNodeICX()
 void
 FSTProcessor::initDefaultIgnoredCharacters()
 {
-  ignored_chars.insert(173); // '\u00AD', soft hyphen
+  default_ignored_chars.insert(173); // '\u00AD', soft hyphen
 }
 
 void
@@ -218,7 +213,8 @@ FSTProcessor::readAnalysis(InputFile& input)
   }
 
   UChar32 val = input.get();
-  while ((useIgnoredChars || useDefaultIgnoredChars) && ignored_chars.find(val) != ignored_chars.end())
+  while ((useIgnoredChars && ignored_chars.find(val) != ignored_chars.end()) ||
+         (useDefaultIgnoredChars && default_ignored_chars.find(val) != default_ignored_chars.end()))
   {
     val = input.get();
   }
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index 1842559..c49f671 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -132,6 +132,11 @@ private:
    */
   std::set<UChar32> ignored_chars;
 
+  /**
+   * Set of characters to ignore by default
+   */
+  std::set<UChar32> default_ignored_chars;
+
   /**
    * Mapping of characters for simplistic diacritic restoration specified in RCX files
    */
-- 
2.43.0


From 5bb77b50760d81b01205dda2a1ef355bc8d3422e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:49 +0000
Subject: [PATCH 77/97] fix: accept the options of lt-tmxcomp for language
 codes

---
 lttoolbox/lt_tmxcomp.cc | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lttoolbox/lt_tmxcomp.cc b/lttoolbox/lt_tmxcomp.cc
index 3a9398e..fcc6a2a 100644
--- a/lttoolbox/lt_tmxcomp.cc
+++ b/lttoolbox/lt_tmxcomp.cc
@@ -50,12 +50,9 @@ int main(int argc, char *argv[])
 {
   LtLocale::tryToSetLocale();
 
-  if(argc != 4)
-  {
-    endProgram(argv[0]);
-  }
-
   TMXCompiler c;
+  UString origin_code;
+  UString meta_code;
 
 #if HAVE_GETOPT_LONG
   int option_index = 0;
@@ -82,11 +79,11 @@ int main(int argc, char *argv[])
     switch(c_t)
     {
       case 'o':
-        c.setOriginLanguageCode(to_ustring(optarg));
+        origin_code = to_ustring(optarg);
         break;
 
       case 'm':
-        c.setMetaLanguageCode(to_ustring(optarg));
+        meta_code = to_ustring(optarg);
         break;
 
       default:
@@ -95,6 +92,11 @@ int main(int argc, char *argv[])
     }
   }
 
+  if(argc - optind != 3)
+  {
+    endProgram(argv[0]);
+  }
+
   UString opc = to_ustring(argv[argc-3]);
   UString lo = opc.substr(0, opc.find('-'));
   UString lm = opc.substr(opc.find('-')+1);
@@ -103,6 +105,14 @@ int main(int argc, char *argv[])
     endProgram(argv[0]);
   }
 
+  // the codes that stand for the languages in the file
+  if(!origin_code.empty()) {
+    lo = origin_code;
+  }
+  if(!meta_code.empty()) {
+    lm = meta_code;
+  }
+
   c.parse(argv[argc-2], lo, lm);
 
   FILE *output = openOutBinFile(argv[argc-1]);
-- 
2.43.0


From accdb1efbc06e4dd541e5f1aa7900ad1796433cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 78/97] fix: let lt-paradigm match unknown tags with nothing
 and characters outside the BMP with themselves

---
 lttoolbox/lt_paradigm.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/lt_paradigm.cc b/lttoolbox/lt_paradigm.cc
index c18c0f3..05aac7b 100644
--- a/lttoolbox/lt_paradigm.cc
+++ b/lttoolbox/lt_paradigm.cc
@@ -83,7 +83,12 @@ void process(UStringView pattern, std::map<UString, Transducer>& trans,
   Transducer other;
   int state = other.getInitial();
   for (auto sym : symbol_iter(pattern)) {
-    int32_t it = (sym.size() == 1 ? sym[0] : alpha(sym));
+    int32_t it = 0;
+    if (sym.size() > 1 && sym[0] == '<') {
+      it = alpha(sym);
+    } else {
+      U16_GET(sym, 0, 0, sym.size(), it);
+    }
     if (it == any_char) {
       state = other.insertNewSingleTransduction(0, state);
       for (auto& sym : letters) {
@@ -110,6 +115,9 @@ void process(UStringView pattern, std::map<UString, Transducer>& trans,
       }
     } else if (it == 0 && StringUtils::startswith(sym, "<|"_u)) {
       auto or_tags = split_tag(sym, alpha, 1, '|');
+      if (or_tags.empty()) {
+        return; // nothing has any of these tags
+      }
       auto old_state = state;
       for (auto& t : or_tags) {
         if (old_state == state) {
@@ -118,6 +126,8 @@ void process(UStringView pattern, std::map<UString, Transducer>& trans,
           other.linkStates(old_state, state, alpha(t, t));
         }
       }
+    } else if (it == 0) {
+      return; // nothing has a tag that is not in the transducer
     } else {
       state = other.insertNewSingleTransduction(alpha(it, it), state);
     }
-- 
2.43.0


From e71056458cde5ff1d625a026f76ffe63f78968b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:41 +0000
Subject: [PATCH 79/97] fix: do not apply the same symbol twice when stepping
 with an override

Every upper-case letter doubled the states of the transliterator and the
post-generator, up to the limit where it starts to match case-sensitively.
---
 lttoolbox/state.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/state.cc b/lttoolbox/state.cc
index ef143f3..cb3bf3b 100644
--- a/lttoolbox/state.cc
+++ b/lttoolbox/state.cc
@@ -202,7 +202,10 @@ State::apply_override(int const input, int const old_sym, int const new_sym)
   for(size_t i = 0, limit = state.size(); i != limit; i++)
   {
     apply_into_override(&new_state, input, old_sym, new_sym, i, false);
-    apply_into_override(&new_state, old_sym, old_sym, new_sym, i, true);
+    if(old_sym != input)
+    {
+      apply_into_override(&new_state, old_sym, old_sym, new_sym, i, true);
+    }
     free_sequence(state[i].sequence);
   }
 
@@ -229,7 +232,10 @@ State::apply_override(int const input, int const alt, int const old_sym, int con
   {
     apply_into_override(&new_state, input, old_sym, new_sym, i, false);
     apply_into_override(&new_state, alt, old_sym, new_sym, i, true);
-    apply_into_override(&new_state, old_sym, old_sym, new_sym, i, true);
+    if(old_sym != input && old_sym != alt)
+    {
+      apply_into_override(&new_state, old_sym, old_sym, new_sym, i, true);
+    }
     free_sequence(state[i].sequence);
   }
 
-- 
2.43.0


From 37941ccb583c316f1439bef90b8a0ad9a7aa8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:18 +0000
Subject: [PATCH 80/97] fix: do not look behind the end of the text in
 symbol_iter

---
 lttoolbox/symbol_iter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/symbol_iter.cc b/lttoolbox/symbol_iter.cc
index 4ebc85b..7faa8d3 100644
--- a/lttoolbox/symbol_iter.cc
+++ b/lttoolbox/symbol_iter.cc
@@ -19,11 +19,12 @@ symbol_iter::iterator& symbol_iter::iterator::operator++()
 {
   if (sloc < str.size()) {
     sloc = eloc;
+    if (eloc >= str.size()) return *this;
     UChar32 c;
     U16_NEXT(str.data(), eloc, str.size(), c);
     if (c == '\\') {
       sloc++;
-      U16_NEXT(str.data(), eloc, str.size(), c);
+      if (eloc < str.size()) U16_NEXT(str.data(), eloc, str.size(), c);
     } else if (c == '<') {
       auto i = eloc;
       while (c != '>' && i < str.size()) U16_NEXT(str.data(), i, str.size(), c);
-- 
2.43.0


From 7134342f5a8f502e6252c3658f3c04ef6fcc940c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:18 +0000
Subject: [PATCH 81/97] fix: look up the whole word, step with its symbols and
 keep all of the queue in biltrans and lookup

---
 lttoolbox/fst_processor.cc | 105 ++++++++++++++-----------------------
 lttoolbox/fst_processor.h  |   1 +
 2 files changed, 39 insertions(+), 67 deletions(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index f2ab27c..1c992f2 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -1601,16 +1601,33 @@ FSTProcessor::transliteration(InputFile& input, UFILE *output)
   }
 }
 
+std::vector<int32_t>
+FSTProcessor::lookupSymbols(UStringView word)
+{
+  std::vector<int32_t> symbols;
+  for (auto symbol : symbol_iter(word)) {
+    if (symbol.size() > 1 && symbol[0] == '<') {
+      symbols.push_back(alphabet(symbol));
+    } else {
+      ustring_to_vec32(symbol, symbols);
+    }
+  }
+  return symbols;
+}
+
 bool
 FSTProcessor::step_biltrans(UStringView word, std::vector<UString>& result, UString& queue)
 {
   State current_state = initial_state;
-  bool firstupper = u_isupper(word[0]);
-  bool uppercase = firstupper && u_isupper(word[1]);
+  auto symbols = lookupSymbols(word);
+  bool firstupper = symbols.size() > 0 && u_isupper(symbols[0]);
+  bool uppercase = firstupper && symbols.size() > 1 && u_isupper(symbols[1]);
+  size_t index = 0;
+  size_t rest = 0; // where the queue starts
   for (auto symbol : symbol_iter(word)) {
-    int32_t val = (symbol.size() == 1 ? symbol[0] : alphabet(symbol));
+    int32_t val = symbols[index++];
     if (current_state.size() != 0) {
-      current_state.step(val, beCaseSensitive(current_state));
+      current_state.step_case(val, beCaseSensitive(current_state));
     }
     if (current_state.isFinal(all_finals)) {
       current_state.filterFinalsArray(result,
@@ -1618,12 +1635,13 @@ FSTProcessor::step_biltrans(UStringView word, std::vector<UString>& result, UStr
                                       escaped_chars,
                                       displayWeightsMode, maxAnalyses, maxWeightClasses,
                                       uppercase, firstupper, 0);
+      rest = symbol.data() + symbol.size() - word.data();
     }
-    if (current_state.size() == 0) {
-      if (!result.empty()) queue.append(symbol);
-      else return false;
+    if (current_state.size() == 0 && result.empty()) {
+      return false;
     }
   }
+  queue = US(word.substr(rest));
   return !result.empty();
 }
 
@@ -1653,7 +1671,7 @@ FSTProcessor::biltransfull(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  auto word = input_word.substr(start_point, end_point-start_point);
+  auto word = input_word.substr(start_point, end_point-start_point+1);
   bool exists = step_biltrans(word, result, queue);
   if (!exists) {
     if (with_delim) return "^@"_u + US(input_word.substr(1));
@@ -1698,7 +1716,7 @@ FSTProcessor::biltrans(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  UStringView word = input_word.substr(start_point, end_point-start_point);
+  UStringView word = input_word.substr(start_point, end_point-start_point+1);
   bool exists = step_biltrans(word, result, queue);
   if (!exists) {
     if (with_delim) return "^@"_u + US(input_word.substr(1));
@@ -1874,9 +1892,7 @@ FSTProcessor::bilingual(InputFile& input, UFILE *output, GenerationMode mode)
 std::pair<UString, int>
 FSTProcessor::biltransWithQueue(UStringView input_word, bool with_delim)
 {
-  State current_state = initial_state;
   std::vector<UString> result;
-  std::vector<UString> temp;
   unsigned int start_point = 1;
   unsigned int end_point = input_word.size()-2;
   UString queue;
@@ -1900,56 +1916,13 @@ FSTProcessor::biltransWithQueue(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  bool firstupper = u_isupper(input_word[start_point]);
-  bool uppercase = firstupper && u_isupper(input_word[start_point+1]);
-
-  UStringView word = input_word.substr(start_point, end_point-start_point);
+  UStringView word = input_word.substr(start_point, end_point-start_point+1);
   for (auto symbol : symbol_iter(word)) {
-    int32_t val;
-    if (symbol.size() == 1) {
-      val = symbol[0];
-    } else {
-      val = alphabet(symbol);
-      seentags = true;
-    }
-    if(current_state.size() != 0)
-    {
-      current_state.step_case(val, beCaseSensitive(current_state));
-    }
-    if(current_state.isFinal(all_finals))
-    {
-      current_state.filterFinalsArray(result, all_finals, alphabet,
-                                      escaped_chars,
-                                      displayWeightsMode, maxAnalyses, maxWeightClasses,
-                                      uppercase, firstupper, 0);
-    }
-
-    if(current_state.size() == 0)
-    {
-      if(!symbol.empty() && !result.empty())
-      {
-        queue.append(symbol);
-      }
-      else
-      {
-        // word is not present
-        if(with_delim)
-        {
-          return {"^@"_u + US(input_word.substr(1)), 0};
-        }
-        else
-        {
-          return {"@"_u + US(input_word), 0};
-        }
-      }
-    }
+    seentags = seentags || (symbol.size() > 1 && symbol[0] == '<');
   }
-
-  if (!seentags
-      && current_state.filterFinals(all_finals, alphabet, escaped_chars,
-                                    displayWeightsMode, maxAnalyses, maxWeightClasses,
-                                    uppercase, firstupper, 0).empty())
-  {
+  bool exists = step_biltrans(word, result, queue);
+  // without tags, only complete matches count
+  if (!exists || (!seentags && !queue.empty())) {
     // word is not present
     if(with_delim)
     {
@@ -1961,8 +1934,6 @@ FSTProcessor::biltransWithQueue(UStringView input_word, bool with_delim)
     }
   }
 
-
-
   // attach unmatched queue automatically
   return {compose(result, queue, with_delim, mark), queue.size()};
 }
@@ -1993,7 +1964,7 @@ FSTProcessor::biltransWithoutQueue(UStringView input_word, bool with_delim)
     mark = true;
   }
 
-  auto word = input_word.substr(start_point, end_point-start_point);
+  auto word = input_word.substr(start_point, end_point-start_point+1);
   UString queue;
   bool exists = step_biltrans(word, result, queue);
   if (!exists || !queue.empty()) {
@@ -2519,12 +2490,12 @@ bool
 FSTProcessor::lookup(UStringView word, std::vector<UString>& result)
 {
   State current_state = initial_state;
-  bool firstupper = u_isupper(word[0]);
-  bool uppercase = firstupper && u_isupper(word[1]);
-  for (auto symbol : symbol_iter(word)) {
-    int32_t val = (symbol.size() == 1 ? symbol[0] : alphabet(symbol));
+  auto symbols = lookupSymbols(word);
+  bool firstupper = symbols.size() > 0 && u_isupper(symbols[0]);
+  bool uppercase = firstupper && symbols.size() > 1 && u_isupper(symbols[1]);
+  for (auto val : symbols) {
     if (current_state.size() != 0) {
-      current_state.step(val, beCaseSensitive(current_state));
+      current_state.step_case(val, beCaseSensitive(current_state));
     }
   }
   current_state.filterFinalsArray(result,
diff --git a/lttoolbox/fst_processor.h b/lttoolbox/fst_processor.h
index c49f671..62b52a2 100644
--- a/lttoolbox/fst_processor.h
+++ b/lttoolbox/fst_processor.h
@@ -459,6 +459,7 @@ private:
                              TranslationMemoryMode tm_mode);
   UString compose(const std::vector<UString>& lexforms, UStringView queue,
                   bool delim = false, bool mark = false) const;
+  std::vector<int32_t> lookupSymbols(UStringView word);
   bool step_biltrans(UStringView word, std::vector<UString>& result, UString& queue);
 
   void procNodeICX();
-- 
2.43.0


From 6b912efaa80cb4b48b55d4f68f0cba17e6614cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:10 +0000
Subject: [PATCH 82/97] fix: restore all symbol pairs, and only those, when
 deserialising an alphabet

---
 lttoolbox/alphabet.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lttoolbox/alphabet.cc b/lttoolbox/alphabet.cc
index de398a0..cc47dcd 100644
--- a/lttoolbox/alphabet.cc
+++ b/lttoolbox/alphabet.cc
@@ -206,7 +206,7 @@ Alphabet::deserialise(std::istream &serialised)
     slexic[slexicinv[i]] = -i - 1; // ToDo: This does not turn the result negative due to unsigned semantics
   }
   spairinv = Deserialiser<std::vector<std::pair<int32_t, int32_t> > >::deserialise(serialised);
-  for (size_t i = 0; i < slexicinv.size(); i++) {
+  for (size_t i = 0; i < spairinv.size(); i++) {
     spair[spairinv[i]] = i;
   }
 }
-- 
2.43.0


From 2a82b308df8f5068ea14dc280a2726924906ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:10 +0000
Subject: [PATCH 83/97] fix: deserialise 16-bit characters whole

---
 lttoolbox/deserialiser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/deserialiser.h b/lttoolbox/deserialiser.h
index 9062930..0d0a899 100644
--- a/lttoolbox/deserialiser.h
+++ b/lttoolbox/deserialiser.h
@@ -85,7 +85,7 @@ public:
 
 template <> class Deserialiser<UChar> {
 public:
-  inline static char deserialise(std::istream &Stream_);
+  inline static UChar deserialise(std::istream &Stream_);
 };
 
 template<> class Deserialiser<double> {
@@ -174,7 +174,7 @@ char Deserialiser<char>::deserialise(std::istream &Stream_) {
   return int_deserialise<uint8_t>(Stream_);
 }
 
-char Deserialiser<UChar>::deserialise(std::istream &Stream_) {
+UChar Deserialiser<UChar>::deserialise(std::istream &Stream_) {
   return int_deserialise<uint16_t>(Stream_);
 }
 
-- 
2.43.0


From 5e5658e22525c55f5499b38de8b377d3dd7d88d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:10 +0000
Subject: [PATCH 84/97] fix: allocate the buffer of a copied match state

---
 lttoolbox/match_state.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lttoolbox/match_state.cc b/lttoolbox/match_state.cc
index 097af0d..ebd1389 100644
--- a/lttoolbox/match_state.cc
+++ b/lttoolbox/match_state.cc
@@ -35,6 +35,7 @@ MatchState::~MatchState()
 
 MatchState::MatchState(MatchState const &s)
 {
+  state = 0;
   copy(s);
 }
 
-- 
2.43.0


From 07538acaa6b2d4faf10e40509b13db5ebcde69e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:16 +0000
Subject: [PATCH 85/97] fix: make a copied MatchExe independent of the original

---
 lttoolbox/match_exe.cc     | 12 +++++++++++-
 lttoolbox/match_node.h     |  1 +
 lttoolbox/sorted_vector.cc | 10 ++++++++++
 lttoolbox/sorted_vector.h  |  7 +++++++
 4 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/match_exe.cc b/lttoolbox/match_exe.cc
index 85d2497..566fb21 100644
--- a/lttoolbox/match_exe.cc
+++ b/lttoolbox/match_exe.cc
@@ -86,7 +86,17 @@ MatchExe::copy(MatchExe const &te)
 {
   initial_id = te.initial_id;
   node_list = te.node_list;
-  finals = te.finals;
+  finals.clear();
+  // lead to the nodes of the copy, not to those of the original
+  MatchNode *from = const_cast<MatchNode *>(te.node_list.data());
+  for(auto &node : node_list)
+  {
+    node.transitions.rebase(from, node_list.data());
+  }
+  for(auto &it : te.finals)
+  {
+    finals[node_list.data() + (it.first - from)] = it.second;
+  }
 }
 
 void
diff --git a/lttoolbox/match_node.h b/lttoolbox/match_node.h
index 7ac5c64..257cdea 100644
--- a/lttoolbox/match_node.h
+++ b/lttoolbox/match_node.h
@@ -39,6 +39,7 @@ class MatchNode
 {
 private:
   friend class MatchState;
+  friend class MatchExe;
 
   /**
    * The outgoing transitions from this node.
diff --git a/lttoolbox/sorted_vector.cc b/lttoolbox/sorted_vector.cc
index dad1980..8046685 100644
--- a/lttoolbox/sorted_vector.cc
+++ b/lttoolbox/sorted_vector.cc
@@ -15,6 +15,7 @@
  * along with this program; if not, see <https://www.gnu.org/licenses/>.
  */
 #include <lttoolbox/sorted_vector.h>
+#include <lttoolbox/match_node.h>
 #include <cstdlib>
 
 
@@ -96,3 +97,12 @@ SortedVector::search(int tag)
 
   return NULL;
 }
+
+void
+SortedVector::rebase(MatchNode *from, MatchNode *to)
+{
+  for(int i = 0; i != size; i++)
+  {
+    sv[i].dest = to + (sv[i].dest - from);
+  }
+}
diff --git a/lttoolbox/sorted_vector.h b/lttoolbox/sorted_vector.h
index 0752240..a450187 100644
--- a/lttoolbox/sorted_vector.h
+++ b/lttoolbox/sorted_vector.h
@@ -88,6 +88,13 @@ public:
    * @returns the destination MatchNode pointer
    */
   MatchNode * search(int tag);
+
+  /**
+   * Make the nodes lead to the elements of another array
+   * @param from the array they lead to
+   * @param to the array to lead to instead
+   */
+  void rebase(MatchNode *from, MatchNode *to);
 };
 
 #endif
-- 
2.43.0


From cd939fdde7862fec32dc2b66845656045b6145ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:14 +0000
Subject: [PATCH 86/97] fix: follow all transitions with a symbol when matching
 patterns

---
 lttoolbox/match_state.cc   |  3 +--
 lttoolbox/sorted_vector.cc | 20 ++++++++++++++++++++
 lttoolbox/sorted_vector.h  |  8 ++++++++
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/match_state.cc b/lttoolbox/match_state.cc
index ebd1389..cdd5804 100644
--- a/lttoolbox/match_state.cc
+++ b/lttoolbox/match_state.cc
@@ -91,8 +91,7 @@ MatchState::init(MatchNode *initial)
 void
 MatchState::applySymbol(MatchNode *pnode, int const symbol)
 {
-  MatchNode *aux = pnode->transitions.search(symbol);
-  if(aux != NULL)
+  for(int n = 0; MatchNode *aux = pnode->transitions.search(symbol, n); n++)
   {
     state[last] = aux;
     last = (last + 1)%BUF_LIMIT;
diff --git a/lttoolbox/sorted_vector.cc b/lttoolbox/sorted_vector.cc
index 8046685..3a484cf 100644
--- a/lttoolbox/sorted_vector.cc
+++ b/lttoolbox/sorted_vector.cc
@@ -98,6 +98,26 @@ SortedVector::search(int tag)
   return NULL;
 }
 
+MatchNode *
+SortedVector::search(int tag, int n)
+{
+  int left = 0, right = size;
+  while(left < right)
+  {
+    int mid = (left+right)/2;
+    if(sv[mid].tag < tag)
+    {
+      left = mid + 1;
+    }
+    else
+    {
+      right = mid;
+    }
+  }
+  left += n;
+  return (left < size && sv[left].tag == tag) ? sv[left].dest : NULL;
+}
+
 void
 SortedVector::rebase(MatchNode *from, MatchNode *to)
 {
diff --git a/lttoolbox/sorted_vector.h b/lttoolbox/sorted_vector.h
index a450187..f94d698 100644
--- a/lttoolbox/sorted_vector.h
+++ b/lttoolbox/sorted_vector.h
@@ -89,6 +89,14 @@ public:
    */
   MatchNode * search(int tag);
 
+  /**
+   * Search all the destinations of a tag
+   * @param tag the tag
+   * @param n the number of the destination, from 0
+   * @return the destination, or NULL if there are not that many
+   */
+  MatchNode * search(int tag, int n);
+
   /**
    * Make the nodes lead to the elements of another array
    * @param from the array they lead to
-- 
2.43.0


From 32305b4f4a5475d986a93e683250b8d7db496157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:27 +0000
Subject: [PATCH 87/97] fix: end the paths of separable dictionaries in a state
 of their own

---
 lttoolbox/compiler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/compiler.cc b/lttoolbox/compiler.cc
index dfb80eb..b40e540 100644
--- a/lttoolbox/compiler.cc
+++ b/lttoolbox/compiler.cc
@@ -96,7 +96,8 @@ Compiler::parse(std::string const &file, UStringView dir)
     int32_t end = alphabet(word_boundary, word_boundary);
     for (auto& it : sections) {
       for (auto fin : it.second.getFinals()) {
-        int end_state = it.second.insertSingleTransduction(end, fin.first);
+        // not a state that other paths go through
+        int end_state = it.second.insertNewSingleTransduction(end, fin.first);
         it.second.setFinal(end_state);
       }
     }
-- 
2.43.0


From f6c21a0af5ef4f53d6276a6a40b032f137b4ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:01 +0000
Subject: [PATCH 88/97] fix: keep patterns with and without a queue apart

buildTransducer shared the state reached after an optional queue with the
patterns that have no queue at that point, so that a sequence written with
literal tags also matched words with a queue after its first unit, depending
on the order of insertion.
---
 lttoolbox/pattern_list.cc | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/lttoolbox/pattern_list.cc b/lttoolbox/pattern_list.cc
index b476de3..ffe5478 100644
--- a/lttoolbox/pattern_list.cc
+++ b/lttoolbox/pattern_list.cc
@@ -298,6 +298,22 @@ PatternList::getPatterns()
 void
 PatternList::buildTransducer()
 {
+  // patterns share a state only if they reach it with the same symbols and
+  // queues: what follows an optional queue must not become a continuation of
+  // the patterns that have no queue there
+  std::map<std::pair<int, int>, int> targets;
+  auto advance = [&](int const source, int const symbol, int const edge)
+  {
+    auto const found = targets.find({source, symbol});
+    if(found != targets.end())
+    {
+      return found->second;
+    }
+    int const target = transducer.insertNewSingleTransduction(edge, source, default_weight);
+    targets[{source, symbol}] = target;
+    return target;
+  };
+
   for(auto it = patterns.begin(), limit = patterns.end();
       it != limit; it++)
   {
@@ -308,13 +324,14 @@ PatternList::buildTransducer()
       int const val = it->second[i];
       if(alphabet(ANY_CHAR) == val || alphabet(ANY_TAG) == val)
       {
-        state = transducer.insertSingleTransduction(val, state, default_weight);
+        state = advance(state, val, val);
         if(prevstate != -1)
         {
           transducer.linkStates(prevstate, state, val, default_weight);
           prevstate = -1;
         }
         transducer.linkStates(state, state, val, default_weight);
+        targets[{state, val}] = state;
       }
       else if(alphabet(QUEUE) == val)
       {
@@ -326,14 +343,14 @@ PatternList::buildTransducer()
 
         // optional queue
         prevstate = state;
-        state = transducer.insertSingleTransduction(static_cast<int>('_'), state, default_weight);
+        state = advance(state, val, static_cast<int>('_'));
         transducer.linkStates(prevstate, state, static_cast<int>(' '), default_weight);
         transducer.linkStates(prevstate, state, static_cast<int>('#'), default_weight);
         transducer.linkStates(state, state, alphabet(ANY_CHAR), default_weight);
       }
       else
       {
-        state = transducer.insertSingleTransduction(val, state, default_weight);
+        state = advance(state, val, val);
         if(prevstate != -1)
         {
           transducer.linkStates(prevstate, state, val, default_weight);
-- 
2.43.0


From 0a2994292bcef0fb8b644143be78559f8b81feae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:57 +0000
Subject: [PATCH 89/97] fix: leave the end of a segment or file in the input
 when a block breaks off

The null character that ends a segment inside a blank, word-bound blank or tag
was swallowed, and with it the answer to the segment, and the end of the file
became a character U+FFFF of the block.
---
 lttoolbox/input_file.cc    | 10 ++++++----
 lttoolbox/stream_reader.cc |  6 ++++++
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/lttoolbox/input_file.cc b/lttoolbox/input_file.cc
index f296927..189006d 100644
--- a/lttoolbox/input_file.cc
+++ b/lttoolbox/input_file.cc
@@ -174,11 +174,12 @@ InputFile::readBlock(const UChar32 start, const UChar32 end)
   UChar32 c = 0;
   while (c != end && !eof()) {
     c = get();
-    if (c == '\0') {
+    if (c == '\0' || (c == U_EOF && eof())) {
+      unget(c);
       break;
     }
     ret += c;
-    if (c == '\\') {
+    if (c == '\\' && peek() != '\0' && !(peek() == U_EOF && eof())) {
       ret += get();
     }
   }
@@ -194,11 +195,12 @@ InputFile::finishWBlank()
   UChar32 c = 0;
   while (!eof()) {
     c = get();
-    if (c == '\0') {
+    if (c == '\0' || (c == U_EOF && eof())) {
+      unget(c);
       break;
     }
     ret += c;
-    if (c == '\\') {
+    if (c == '\\' && peek() != '\0' && !(peek() == U_EOF && eof())) {
       ret += get();
     } else if (c == ']' && peek() == ']') {
       ret += get();
diff --git a/lttoolbox/stream_reader.cc b/lttoolbox/stream_reader.cc
index 86e1a20..1809c97 100644
--- a/lttoolbox/stream_reader.cc
+++ b/lttoolbox/stream_reader.cc
@@ -82,6 +82,12 @@ void StreamReader::next() {
         cur.content += c;
         if (c == '\\') {
           UChar32 c2 = in->get();
+          if (c2 == '\0' || (c2 == U_EOF && in->eof())) {
+            // the unit breaks off
+            cur.content.pop_back();
+            c = c2;
+            continue;
+          }
           if (alpha) cur.symbols.push_back(static_cast<int32_t>(c2));
           cur.content += c2;
         }
-- 
2.43.0


From 5ee8cc0895ae512ed5ac7721f90610373018fdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:57 +0000
Subject: [PATCH 90/97] fix: refuse an unfinished CDATA section instead of
 reading on for ever

---
 lttoolbox/fst_processor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 1c992f2..c6de907 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -2162,6 +2162,10 @@ FSTProcessor::readSAO(InputFile& input)
       {
         while(!StringUtils::endswith(str, u"]]>"))
         {
+          if(input.peek() == '\0' || (input.peek() == U_EOF && input.eof()))
+          {
+            streamError();
+          }
           str.append(input.readBlock('<', '>').substr(1));
         }
         blankqueue.push(str);
-- 
2.43.0


From b603195835a4c881c3ad4f118a5c971a13733f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:16 +0000
Subject: [PATCH 91/97] fix: do not take the end of a segment or file for an
 escaped character

---
 lttoolbox/fst_processor.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index c6de907..3c43528 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -255,6 +255,9 @@ FSTProcessor::readAnalysis(InputFile& input)
 
       case '\\':
         val = input.get();
+        if(val == U_EOF && input.eof()) {
+          val = 0;
+        }
         if(val == ' ') {
           blankqueue.push(" "_u);
         }
@@ -325,6 +328,11 @@ FSTProcessor::readTMAnalysis(InputFile& input)
 
       case '\\':
         symbol = input.get();
+        if(symbol == '\0' || (symbol == U_EOF && input.eof()))
+        {
+          symbol = 0;
+          break;
+        }
         text += val;
         text += symbol;
         break;
@@ -395,6 +403,10 @@ FSTProcessor::readTransliterationWord(InputFile& input)
           break;
         } else if (c == '\\') {
           c = input.get();
+          if (c == '\0' || (c == U_EOF && input.eof())) {
+            input.unget(c);
+            break;
+          }
           if (c == ' ') blankqueue.push(" "_u); // it stands for itself
           word.push_back(static_cast<int32_t>(c));
         } else if (c == '<') {
@@ -421,6 +433,10 @@ FSTProcessor::readTransliterationWord(InputFile& input)
         break;
       } else if (c == '\\') {
         c = input.get();
+        if (c == '\0' || (c == U_EOF && input.eof())) {
+          input.unget(c);
+          break;
+        }
         if (c == ' ') blankqueue.push(" "_u); // it stands for itself
         word.push_back(static_cast<int32_t>(c));
       } else if (c == '<') {
-- 
2.43.0


From 5b00ad8eccbeba27ae65fe239b6bddd009b678b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:53 +0000
Subject: [PATCH 92/97] fix: do not end an analysis at a tag that the
 dictionary does not have

---
 lttoolbox/fst_processor.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lttoolbox/fst_processor.cc b/lttoolbox/fst_processor.cc
index 3c43528..9cd5356 100644
--- a/lttoolbox/fst_processor.cc
+++ b/lttoolbox/fst_processor.cc
@@ -233,9 +233,13 @@ FSTProcessor::readAnalysis(InputFile& input)
     switch(val)
     {
       case '<':
-        altval = alphabet(input.readBlock('<', '>'));
+      {
+        UString tag = input.readBlock('<', '>');
+        alphabet.includeSymbol(tag); // an unknown one is not the end of the input
+        altval = alphabet(tag);
         input_buffer.add(altval);
         return altval;
+      }
 
       case '[':
         val = input.get();
-- 
2.43.0


From 0c9d528cab150e5cac040f196e3ca2d3709fcf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:31 +0000
Subject: [PATCH 93/97] fix: read runs of word-bound blanks without recursion

A long run of word-bound blanks that belong to no word overflowed the stack.
---
 lttoolbox/stream_reader.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/stream_reader.cc b/lttoolbox/stream_reader.cc
index 1809c97..af84f62 100644
--- a/lttoolbox/stream_reader.cc
+++ b/lttoolbox/stream_reader.cc
@@ -35,15 +35,17 @@ void StreamReader::next() {
 
   UChar32 c = in->get();
 
-  if (c == '[') {
+  while (c == '[') {
     in->get();
     wblank = in->finishWBlank();
-    if (in->peek() != '^') {
-      UString temp = blank + wblank;
-      next();
-      blank = temp + blank;
-      return;
+    if (in->peek() == '^') {
+      c = in->get();
+      break;
     }
+    // it does not belong to a word
+    blank += wblank;
+    wblank.clear();
+    blank += in->readBlank(false);
     c = in->get();
   }
 
-- 
2.43.0


From cc2000757339b303377349580fdfcc3278a3e580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:31 +0000
Subject: [PATCH 94/97] fix: compile long transducers without recursion

---
 lttoolbox/att_compiler.cc | 39 +++++++++++++++++++++++++--------------
 lttoolbox/att_compiler.h  |  2 +-
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/lttoolbox/att_compiler.cc b/lttoolbox/att_compiler.cc
index 597524b..58ff6ce 100644
--- a/lttoolbox/att_compiler.cc
+++ b/lttoolbox/att_compiler.cc
@@ -390,7 +390,7 @@ AttCompiler::extract_transducer(TransducerType type)
 }
 
 /**
- * Recursively fills @p transducer (and @p corr) -- helper method called by
+ * Fills @p transducer (and @p corr) -- helper method called by
  * extract_transducer().
  */
 void
@@ -398,23 +398,31 @@ AttCompiler::_extract_transducer(TransducerType type, int from,
                                  Transducer& transducer, std::map<int, int>& corr,
                                  std::set<int>& visited)
 {
-  if (visited.find(from) != visited.end())
-  {
-    return;
-  }
-  else
+  /* The states on the current path and their next transductions: as the path
+     can be as long as the transducer, it is not kept on the call stack. */
+  std::vector<std::pair<int, size_t>> path;
+
+  if (visited.insert(from).second)
   {
-    visited.insert(from);
+    path.push_back({from, 0});
   }
 
-  AttNode* source = get_node(from);
-
-  /* Is the source state new? */
-  bool new_from = corr.find(from) == corr.end();
   int from_t, to_t;
 
-  for (auto& it : source->transductions)
+  while (!path.empty())
   {
+    from = path.back().first;
+    AttNode* source = get_node(from);
+    if (path.back().second == source->transductions.size())
+    {
+      path.pop_back();
+      continue;
+    }
+    auto& it = source->transductions[path.back().second++];
+
+    /* Is the source state new? */
+    bool new_from = corr.find(from) == corr.end();
+
     if ((it.type & type) != type)
     {
       continue;  // Not the right type
@@ -441,8 +449,11 @@ AttCompiler::_extract_transducer(TransducerType type, int from,
       to_t = transducer.insertNewSingleTransduction(it.tag, from_t, it.weight);
       corr[it.to] = to_t;
     }
-    _extract_transducer(type, it.to, transducer, corr, visited);
-  }  // for
+    if (visited.insert(it.to).second)
+    {
+      path.push_back({it.to, 0});
+    }
+  }
 }
 
 void
diff --git a/lttoolbox/att_compiler.h b/lttoolbox/att_compiler.h
index 533ddb6..a2b0b0b 100644
--- a/lttoolbox/att_compiler.h
+++ b/lttoolbox/att_compiler.h
@@ -65,7 +65,7 @@ public:
   Transducer extract_transducer(TransducerType type);
 
   /**
-   * Recursively fills @p transducer (and @p corr) -- helper method called by
+   * Fills @p transducer (and @p corr) -- helper method called by
    * extract_transducer().
    */
   void _extract_transducer(TransducerType type, int from,
-- 
2.43.0


From fd80d181a4d959b921ad23074ba89b16b6d573f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:34 +0000
Subject: [PATCH 95/97] fix: forget characters that were put back when an input
 is rewound or reopened

---
 lttoolbox/input_file.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lttoolbox/input_file.cc b/lttoolbox/input_file.cc
index 189006d..9533f11 100644
--- a/lttoolbox/input_file.cc
+++ b/lttoolbox/input_file.cc
@@ -66,6 +66,7 @@ InputFile::open_or_exit(const char* fname)
 void
 InputFile::close()
 {
+  buffer_size = 0;
   if (infile != nullptr) {
     if (infile != stdin) {
       fclose(infile);
@@ -158,6 +159,7 @@ InputFile::eof()
 void
 InputFile::rewind()
 {
+  buffer_size = 0;
   if (infile != nullptr) {
     if (std::fseek(infile, 0, SEEK_SET) != 0) {
       std::cerr << "Error: Unable to rewind file" << std::endl;
-- 
2.43.0


From 28fe8f395864b6a5c4aa1de269d7d3fbe3c8e885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:08 +0000
Subject: [PATCH 96/97] fix: give case conversion the room it can need

Three UTF-16 units can come of one: the upper case of U+0390, for example, was
an error that ended the program.
---
 lttoolbox/string_utils.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lttoolbox/string_utils.cc b/lttoolbox/string_utils.cc
index 57ae9d8..7dbcfb2 100644
--- a/lttoolbox/string_utils.cc
+++ b/lttoolbox/string_utils.cc
@@ -173,9 +173,9 @@ StringUtils::stod(const UString& str)
 UString
 StringUtils::tolower(UStringView str)
 {
-  UString buf(str.size()*2, 0);
+  UString buf(str.size()*3, 0);
   UErrorCode err = U_ZERO_ERROR;
-  buf.resize(u_strToLower(&buf[0], str.size() * 2, str.data(), str.size(), NULL, &err));
+  buf.resize(u_strToLower(&buf[0], str.size() * 3, str.data(), str.size(), NULL, &err));
   if (U_FAILURE(err)) {
     std::cerr << "Error: unable to lowercase string '" << str << "'.\n";
     std::cerr << "error code: " << u_errorName(err) << std::endl;
@@ -187,9 +187,9 @@ StringUtils::tolower(UStringView str)
 UString
 StringUtils::toupper(UStringView str)
 {
-  UString buf(str.size()*2, 0);
+  UString buf(str.size()*3, 0);
   UErrorCode err = U_ZERO_ERROR;
-  buf.resize(u_strToUpper(&buf[0], str.size()*2, str.data(), str.size(), NULL, &err));
+  buf.resize(u_strToUpper(&buf[0], str.size()*3, str.data(), str.size(), NULL, &err));
   if (U_FAILURE(err)) {
     std::cerr << "Error: unable to uppercase string '" << str << "'.\n";
     std::cerr << "error code: " << u_errorName(err) << std::endl;
@@ -201,9 +201,9 @@ StringUtils::toupper(UStringView str)
 UString
 StringUtils::totitle(UStringView str)
 {
-  UString buf(str.size()*2, 0);
+  UString buf(str.size()*3, 0);
   UErrorCode err = U_ZERO_ERROR;
-  buf.resize(u_strToTitle(&buf[0], str.size()*2, str.data(), str.size(), NULL, NULL, &err));
+  buf.resize(u_strToTitle(&buf[0], str.size()*3, str.data(), str.size(), NULL, NULL, &err));
   if (U_FAILURE(err)) {
     std::cerr << "Error: unable to titlecase string '" << str << "'.\n";
     std::cerr << "error code: " << u_errorName(err) << std::endl;
-- 
2.43.0


From e6b1bac0e066c01df8d3c0ecb5e2f3318c085d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:56 +0000
Subject: [PATCH 97/97] fix: do not read beyond the end of a text of spaces
 when trimming it

---
 lttoolbox/string_utils.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lttoolbox/string_utils.cc b/lttoolbox/string_utils.cc
index 7dbcfb2..5d5b608 100644
--- a/lttoolbox/string_utils.cc
+++ b/lttoolbox/string_utils.cc
@@ -16,15 +16,18 @@ StringUtils::trim(UStringView str)
   size_t end = str.size();
   size_t i = 0;
   UChar32 c;
-  while (begin < end) {
+  while (i < end) {
     U16_GET(str.data(), begin, i, end, c);
     if (!u_isspace(c)) {
-      begin = i;
       break;
     } else {
       U16_FWD_1(str.data(), i, end);
     }
   }
+  begin = i;
+  if (begin == end) {
+    return str.substr(begin);
+  }
   i = str.size();
   U16_BACK_1(str.data(), 0, i);
   U16_GET(str.data(), 0, i, end, c);
-- 
2.43.0

