From ab684e59b2e3ead4001097e45fdbe4cef2191eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 01/60] fix: let an automaton be concatenated or alternated
 with itself

Import() reads its argument while resizing the destination, so a += a and
a |= a read past the end of the transition table.
---
 pire/fsm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index d3dc599..ee1bd92 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -469,6 +469,9 @@ unsigned long Fsm::Output(size_t from, size_t to) const
 
 Fsm& Fsm::operator += (const Fsm& rhs)
 {
+	if (&rhs == this)
+		return *this += Fsm(rhs);
+
 	size_t lhsSize = Size();
 	Import(rhs);
 
@@ -498,6 +501,9 @@ Fsm& Fsm::operator += (const Fsm& rhs)
 
 Fsm& Fsm::operator |= (const Fsm& rhs)
 {
+	if (&rhs == this)
+		return *this |= Fsm(rhs);
+
 	size_t lhsSize = Size();
 
 	Import(rhs);
-- 
2.43.0


From e9d1f8a2b1b11aa858053170b5283bff2bfc84a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 02/60] fix: keep the language when concatenating with an
 automaton whose initial state is final

a + Fsm() matched nothing instead of what a matches.
---
 pire/fsm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index ee1bd92..bf4178d 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -488,7 +488,9 @@ Fsm& Fsm::operator += (const Fsm& rhs)
 				outputs[final].insert(ymake_pair(toAndOutput.first + lhsSize, toAndOutput.second));
 		}
 
-	ClearFinal();
+	// If rhs matches an empty string, all the final states of lhs remain final
+	if (!rhs.IsFinal(rhs.initial))
+		ClearFinal();
 	for (auto&& letter : rhs.m_final)
 		SetFinal(letter + lhsSize, true);
 	determined = false;
-- 
2.43.0


From 7bb9c0aa35572098f02345dfd885ad83dab39b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 03/60] fix: make Fsm::Swap exchange the letter classes
 together with their validity flag

Swap() left the flag telling whether the letter classes are in use behind, so
after swapping a canonized FSM with a plain one Connected() and Destinations()
translated letters through the wrong table, or not at all.
---
 pire/fsm.cpp            | 3 +++
 pire/half_final_fsm.cpp | 1 +
 2 files changed, 4 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index bf4178d..87fb526 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -256,6 +256,7 @@ void Fsm::Swap(Fsm& fsm)
 	DoSwap(initial, fsm.initial);
 	DoSwap(m_final, fsm.m_final);
 	DoSwap(letters, fsm.letters);
+	DoSwap(m_sparsed, fsm.m_sparsed);
 	DoSwap(determined, fsm.determined);
 	DoSwap(outputs, fsm.outputs);
 	DoSwap(tags, fsm.tags);
@@ -611,6 +612,7 @@ Fsm& Fsm::Reverse()
 	Fsm out;
 	out.Resize(Size() + 1);
 	out.letters = Letters();
+	out.m_sparsed = m_sparsed;
 
 	// Invert transitions
 	for (size_t from = 0; from < Size(); ++from)
@@ -927,6 +929,7 @@ public:
 		mNewFsm.initial = 0;
 		mNewFsm.determined = true;
 		mNewFsm.letters = Letters();
+		mNewFsm.m_sparsed = mFsm.m_sparsed;
 		mNewFsm.m_final.clear();
 		for (size_t ns = 0; ns < states.size(); ++ns) {
 			PIRE_IFDEBUG(Cdbg << "State " << ns << " = [" << Join(states[ns].begin(), states[ns].end(), ", ") << "]" << Endl);
diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index e45d03b..692c2ee 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -274,6 +274,7 @@ namespace Pire {
 				mNewFsm.SetInitial(0);
 				mNewFsm.SetIsDetermined(true);
 				mNewFsm.letters = Letters();
+				mNewFsm.m_sparsed = mFsm.m_sparsed;
 				mNewFsm.ClearFinal();
 				for (size_t i = 0; i < newStates.size(); i++) {
 					newStates[i].CopyData(mNewFsm, i);
-- 
2.43.0


From 1afee3fe7da5406ff8b76b2a55cadfdf7f4b51a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:29 +0000
Subject: [PATCH 04/60] fix: append to a complemented or canonized automaton
 without losing letters

Such an FSM stores transitions for one letter of each class only. Letters
appended to it were overwritten (or multiplied) when the classes were unpacked
again, so ~a + 'b' built by Append() accepted a wrong language.
---
 pire/fsm.cpp | 15 +++++++++++++++
 pire/fsm.h   |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 87fb526..08edd87 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -271,8 +271,19 @@ void Fsm::SetFinal(size_t state, bool final)
 		m_final.erase(state);
 }
 
+// Transitions of a sparsed FSM are only stored for one letter of each class.
+// Before adding transitions for single letters these have to be put back for all the letters.
+void Fsm::DropLetterClasses()
+{
+	if (!m_sparsed)
+		return;
+	Unsparse();
+	letters = LettersTbl(LettersEquality(m_transitions));
+}
+
 Fsm& Fsm::AppendDot()
 {
+	DropLetterClasses();
 	Resize(Size() + 1);
 	for (size_t letter = 0; letter != (1 << (sizeof(char)*8)); ++letter)
 		ConnectFinal(Size() - 1, letter);
@@ -284,6 +295,7 @@ Fsm& Fsm::AppendDot()
 
 Fsm& Fsm::Append(char c)
 {
+	DropLetterClasses();
 	Resize(Size() + 1);
 	ConnectFinal(Size() - 1, static_cast<unsigned char>(c));
 	ClearFinal();
@@ -301,6 +313,7 @@ Fsm& Fsm::Append(const ystring& str)
 
 Fsm& Fsm::AppendSpecial(Char c)
 {
+	DropLetterClasses();
 	Resize(Size() + 1);
 	ConnectFinal(Size() - 1, c);
 	ClearFinal();
@@ -315,6 +328,7 @@ Fsm& Fsm::AppendStrings(const TVector<ystring>& strings)
 		if (i.empty())
 			throw Error("None of strings passed to appendStrings() can be empty");
 
+	DropLetterClasses();
 	Resize(Size() + 1);
 	size_t end = Size() - 1;
 
@@ -426,6 +440,7 @@ void Fsm::Import(const Fsm& rhs)
 		tags.insert(ymake_pair(tag.first + oldsize, tag.second));
 
 	letters = LettersTbl(LettersEquality(m_transitions));
+	m_sparsed = false;
 }
 
 void Fsm::Connect(size_t from, size_t to, Char c /* = Epsilon */)
diff --git a/pire/fsm.h b/pire/fsm.h
index 7568462..e76efbf 100644
--- a/pire/fsm.h
+++ b/pire/fsm.h
@@ -239,6 +239,8 @@ namespace Pire {
 
 		TSet<size_t> TerminalStates() const;
 		
+		void DropLetterClasses(); ///< internal
+
 		Char Translate(Char c) const;
 		
 		void ClearHints() { isAlternative = false; }
-- 
2.43.0


From 194e77f0af563c6a9c506aa5221d3d9f32cc3ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 05/60] fix: make MakeSuffix accept suffixes only, also on
 determined automata

---
 pire/fsm.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 08edd87..e94d55d 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -616,9 +616,13 @@ void Fsm::MakePrefix()
 
 void Fsm::MakeSuffix()
 {
-	for (size_t i = 0; i < Size(); ++i)
-		if (i != initial)
-			Connect(initial, i);
+	TSet<size_t> dead = DeadStates();
+	size_t start = Resize(Size() + 1);
+	for (size_t i = 0; i < start; ++i)
+		if (dead.find(i) == dead.end())
+			Connect(start, i);
+	initial = start;
+	determined = false;
 	ClearHints();
 }
 	
-- 
2.43.0


From 43956da48e774bcd0f4988e9a84992dd39105eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:11 +0000
Subject: [PATCH 06/60] fix: do not consider an automaton determined after its
 dead ends have been removed

---
 pire/fsm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index e94d55d..cfe9e63 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -734,6 +734,9 @@ void Fsm::RemoveDeadEnds()
 			for (auto&& k : j)
 				k.second.erase(i);
 	}
+	// A determined FSM must have transitions for all the letters
+	if (!dead.empty())
+		determined = false;
 	ClearHints();
 
 	PIRE_IFDEBUG(Cdbg << "Result:" << Endl << *this << Endl);
-- 
2.43.0


From 883d2cdc78704bfbe2ab704fe99c368fa2a56af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 07/60] fix: keep transitions which were added to an unpacked
 automaton

---
 pire/fsm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index cfe9e63..92f7409 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -881,6 +881,9 @@ void Fsm::Sparse(bool needEpsilons /* = false */)
 
 void Fsm::Unsparse()
 {
+	// Letter classes of an already unpacked FSM may be out of date
+	if (!m_sparsed)
+		return;
 	for (auto&& letter : letters)
 		for (auto&& i : m_transitions)
 			for (auto&& j : letter.second.second)
-- 
2.43.0


From 5a44b999a6b03ecdd4b117d44f3ce65c2129538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 08/60] fix: do not take Unicode characters of a pattern for
 control codes

---
 pire/re_lexer.cpp | 2 ++
 pire/re_lexer.h   | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 33acf42..b26f16f 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -55,6 +55,8 @@ wchar32 Lexer::GetChar()
 			Error("Regexp must not end with a backslash");
 		wchar32 ch = m_input.front();
 		m_input.pop_front();
+		if (ch > 0x7F)
+			Error("Wrong escape sequence");
 		return Control | ch;
 	} else {
 		wchar32 ch = m_input.front();
diff --git a/pire/re_lexer.h b/pire/re_lexer.h
index 6db4242..8d9e24b 100644
--- a/pire/re_lexer.h
+++ b/pire/re_lexer.h
@@ -42,8 +42,9 @@ namespace Pire {
 namespace Consts {
 enum { Inf = -1 };
 
-static const wchar32 Control     = 0xF000;
-static const wchar32 ControlMask = 0xFF00;
+// These do not overlap with Unicode characters
+static const wchar32 Control     = 0xF0000000;
+static const wchar32 ControlMask = 0xFFFFFF00;
 static const wchar32 End         = Control | 0xFF;
 };
 
-- 
2.43.0


From 14685f0361e3a7d0553736f922479ecff83a4ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 09/60] fix: reject reversed, overflowing and non-ASCII
 repetition counts

---
 pire/re_lexer.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index b26f16f..f8e7e13 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -24,6 +24,7 @@
 #include <ctype.h>
 #include "stub/utf8.h"
 #include "stub/singleton.h"
+#include <limits>
 #include <stdexcept>
 #include "re_lexer.h"
 #include "re_parser.h"
@@ -297,11 +298,11 @@ namespace {
 			ch = GetChar();
 			int lower = 0, upper = 0;
 
-			if (!is_digit(ch))
+			if (!IsDigit(ch))
 				Error("Wrong repetition count");
 
-			for (; is_digit(ch); ch = GetChar())
-				lower = lower * 10 + (ch - '0');
+			for (; IsDigit(ch); ch = GetChar())
+				lower = AppendDigit(lower, ch);
 			if (ch == '}')
 				return Term::Repetition(lower, lower);
 			else if (ch != ',')
@@ -310,15 +311,26 @@ namespace {
 			ch = GetChar();
 			if (ch == '}')
 				return Term::Repetition(lower, Inf);
-			else if (!is_digit(ch))
+			else if (!IsDigit(ch))
 				Error("Wrong repetition count");
-			for (; is_digit(ch); ch = GetChar())
-				upper = upper * 10 + (ch - '0');
+			for (; IsDigit(ch); ch = GetChar())
+				upper = AppendDigit(upper, ch);
 
-			if (ch != '}')
+			if (ch != '}' || upper < lower)
 				Error("Wrong repetition count");
 			return Term::Repetition(lower, upper);
 		}
+
+	private:
+		static bool IsDigit(wchar32 c) { return c >= '0' && c <= '9'; }
+
+		int AppendDigit(int count, wchar32 digit)
+		{
+			int d = digit - '0';
+			if (count > (std::numeric_limits<int>::max() - d) / 10)
+				Error("Wrong repetition count");
+			return count * 10 + d;
+		}
 	};
 
 	class CaseInsensitiveImpl: public Feature {
-- 
2.43.0


From aad2ebd2832d5f4dd7bc7da1a39ba31745db0a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 10/60] fix: do not truncate too large hexadecimal escapes

---
 pire/read_unicode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/read_unicode.cpp b/pire/read_unicode.cpp
index f29adae..62924dc 100644
--- a/pire/read_unicode.cpp
+++ b/pire/read_unicode.cpp
@@ -64,7 +64,7 @@ namespace Pire {
 	}
 
 	wchar32 UnicodeReader::HexToDec(const ystring &hexStr) {
-		wchar32 converted;
+		unsigned long converted;
 		try {
 			converted = std::stoul(hexStr, 0, 16);
 		} catch (std::out_of_range &) {
-- 
2.43.0


From 9d5ca9e0f4548ad4753d904a2dc2264f96a92bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:21 +0000
Subject: [PATCH 11/60] fix: let a lexer parse another pattern after a
 malformed one

---
 pire/re_lexer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/re_lexer.h b/pire/re_lexer.h
index 8d9e24b..ed10cda 100644
--- a/pire/re_lexer.h
+++ b/pire/re_lexer.h
@@ -137,6 +137,7 @@ public:
 	template<class Iter> void Assign(Iter begin, Iter end)
 	{
 		m_input.clear();
+		m_errmsg.clear();
 		std::copy(begin, end, std::back_inserter(m_input));
 	}
 
-- 
2.43.0


From 295468139e124cc1e69a5ecc2ee25861d18cb268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 12/60] fix: unite negated classes with other members of a
 bracket expression

---
 pire/classes.cpp | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/pire/classes.cpp b/pire/classes.cpp
index b65f417..d3dafa7 100644
--- a/pire/classes.cpp
+++ b/pire/classes.cpp
@@ -116,23 +116,42 @@ namespace {
 				typedef Term::CharacterRange::first_type CharSet;
 				const CharSet& old = range.first;
 				CharSet altered;
+				TSet<wchar32> excluded; // characters that belong to all the negated classes
 				bool pos = false;
 				bool neg = false;
 				for (auto&& i : old)
 					if (i.size() == 1 && (i[0] & ControlMask) == Control && m_table->Has(i[0])) {
-						if (is_upper(i[0] & ~ControlMask))
+						TSet<wchar32> klass = m_table->Get(i[0]);
+						if (is_upper(i[0] & ~ControlMask)) {
+							if (neg) {
+								for (auto j = excluded.begin(); j != excluded.end();)
+									if (klass.find(*j) == klass.end())
+										excluded.erase(j++);
+									else
+										++j;
+							} else
+								excluded.swap(klass);
 							neg = true;
-						else
+						} else {
+							for (auto&& j : klass)
+								altered.insert(Term::String(1, j));
 							pos = true;
-
-						TSet<wchar32> klass = m_table->Get(i[0]);
-						for (auto&& j : klass)
-							altered.insert(Term::String(1, j));
+						}
 					} else
 						altered.insert(i);
 
 				if (neg && (pos || range.second))
 					Error("Positive and negative character ranges mixed");
+				if (neg) {
+					CharSet named;
+					named.swap(altered);
+					for (auto&& i : named)
+						if (i.size() == 1 && (i[0] & ControlMask) == Control)
+							Error("Wrong escape sequence");
+					for (auto&& j : excluded)
+						if (named.find(Term::String(1, j)) == named.end())
+							altered.insert(Term::String(1, j));
+				}
 				t = Term(t.Type(), Term::CharacterRange(altered, neg || range.second));
 			}
 		}
-- 
2.43.0


From 2b91308900e47b41b9af71552350b4fe5149faf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 13/60] fix: let escaped and null characters be bounds of a
 bracket range

---
 pire/re_lexer.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index f8e7e13..504f1da 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -196,7 +196,7 @@ void Lexer::Parenthesized(Fsm& fsm)
 
 wchar32 Feature::CorrectChar(wchar32 c, const char* controls)
 {
-	bool ctrl = (strchr(controls, c & 0xFF) != 0);
+	bool ctrl = ((c & 0xFF) != 0 && strchr(controls, c & 0xFF) != 0);
 	if ((c & ControlMask) == Control && ctrl)
 		return c & ~ControlMask;
 	if (c <= 0xFF && ctrl)
@@ -223,7 +223,6 @@ namespace {
 		Term Lex()
 		{
 			static const char* controls = "^[]-\\";
-			static const char* controls2 = "*+{}()$?.&~";
 			wchar32 ch = CorrectChar(GetChar(), controls);
 			if (ch == '[' || ch == ']')
 				return Term::Character(ch);
@@ -245,6 +244,7 @@ namespace {
 					unicodeSymbol = ReadUnicodeCharacter();
 				} else {
 					firstUnicode = false;
+					ch = PlainChar(ch);
 				}
 
 				if (((ch & ControlMask) != Control || firstUnicode) && CorrectChar(PeekChar(), controls) == (Control | '-')) {
@@ -259,7 +259,7 @@ namespace {
 						UngetChar(current);
 						end = ReadUnicodeCharacter();
 					} else {
-						end = CorrectChar(current, controls);
+						end = PlainChar(CorrectChar(current, controls));
 						if ((end & ControlMask) == Control)
 							Error("Wrong character range");
 					}
@@ -270,7 +270,7 @@ namespace {
 				} else if (ch == (Control | '-')) {
 					cs.first.insert(Term::String(1, '-'));
 				}
-				else if ((ch & ControlMask) == Control && (strchr(controls2, ch & ~ControlMask) || strchr(controls, ch & ~ControlMask))) {
+				else if ((ch & ControlMask) == Control && strchr(controls, ch & ~ControlMask)) {
 					cs.first.insert(Term::String(1, ch & ~ControlMask));
 				}
 				else if ((ch & ControlMask) != Control || !strchr(controls, ch & ~ControlMask)) {
@@ -284,6 +284,15 @@ namespace {
 
 			return Term(TokenTypes::Letters, cs);
 		}
+
+	private:
+		/// Drops the escape of a character which has no special meaning in brackets
+		static wchar32 PlainChar(wchar32 c)
+		{
+			if ((c & ControlMask) == Control && strchr("*+{}()$?.&~", c & ~ControlMask))
+				return c & ~ControlMask;
+			return c;
+		}
 	};
 
 	class RepetitionCountReader: public Feature {
-- 
2.43.0


From 58dac2ad4fbfb399c36b0928dbb4c18c3f9d9513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 14/60] fix: do not encode characters beyond Unicode as UTF-8
 and do not decode past the end

---
 pire/encoding.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pire/encoding.cpp b/pire/encoding.cpp
index 5726096..e7c1674 100644
--- a/pire/encoding.cpp
+++ b/pire/encoding.cpp
@@ -71,6 +71,7 @@ namespace {
 		static const size_t Next[2] = {0x80, 0xC0};
 	}
 
+	static const wchar32 MaxUnicode = 0x10FFFF;
 
 	class Utf8: public Encoding {
 	public:
@@ -80,6 +81,8 @@ namespace {
 		{
 			wchar32 rune;
 			size_t len;
+			if (begin == end)
+				throw Error("EOF reached in Pire::Utf8::fromLocal()");
 			if (utf8_read_rune(rune, len, reinterpret_cast<const unsigned char*>(begin), reinterpret_cast<const unsigned char*>(end)) != RECODE_OK)
 				throw Error("Error reading UTF8 sequence");
 			begin += len;
@@ -88,6 +91,8 @@ namespace {
 
 		ystring ToLocal(wchar32 c) const
 		{
+			if (c > MaxUnicode)
+				return ystring();
 			ystring ret(utf8_rune_len_by_ucs(c), ' ');
 			size_t len;
 			unsigned char* p = (unsigned char*) &*ret.begin();
-- 
2.43.0


From 5ef299083fcda1736014b93bd1dc0a9b438e771b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 15/60] fix: reject overlong and out-of-range UTF-8 sequences

---
 pire/encoding.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/encoding.cpp b/pire/encoding.cpp
index e7c1674..c5760c4 100644
--- a/pire/encoding.cpp
+++ b/pire/encoding.cpp
@@ -85,6 +85,8 @@ namespace {
 				throw Error("EOF reached in Pire::Utf8::fromLocal()");
 			if (utf8_read_rune(rune, len, reinterpret_cast<const unsigned char*>(begin), reinterpret_cast<const unsigned char*>(end)) != RECODE_OK)
 				throw Error("Error reading UTF8 sequence");
+			if (utf8_rune_len_by_ucs(rune) != len || rune > MaxUnicode || (rune >= 0xD800 && rune < 0xE000))
+				throw Error("Wrong UTF8 sequence");
 			begin += len;
 			return rune;
 		}
-- 
2.43.0


From ad6e33860989a45bb0a48d78876bae0178cacd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 16/60] fix: make creation of shared tables thread safe

---
 pire/stub/singleton.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pire/stub/singleton.h b/pire/stub/singleton.h
index 0079cac..42ab69a 100644
--- a/pire/stub/singleton.h
+++ b/pire/stub/singleton.h
@@ -26,13 +26,10 @@
 
 namespace Pire {
 	
-	// FIXME: not thread safe.
 	template<class T>
 	T* Singleton()
 	{
-		static T* p = 0;
-		if (!p)
-			p = new T;
+		static T* const p = new T;
 		return p;
 	}
 	template<class T>
-- 
2.43.0


From 70d5dfc9e4a60e45f90005c538fbabe403a5bba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 17/60] fix: do not apply out of date letter classes when
 combining automata

---
 pire/fsm.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 92f7409..0f4baa7 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -398,16 +398,18 @@ void Fsm::Import(const Fsm& rhs)
 
 	size_t oldsize = Resize(Size() + rhs.Size());
 
-	for (auto&& outer : m_transitions) {
-		for (auto&& letter : letters) {
-			auto targets = outer.find(letter.first);
-			if (targets == outer.end())
-				continue;
-			for (auto&& character : letter.second.second)
-				if (character != letter.first)
-					outer.insert(ymake_pair(character, targets->second));
+	// Letter classes only make sense while the FSM is sparsed
+	if (m_sparsed)
+		for (auto&& outer : m_transitions) {
+			for (auto&& letter : letters) {
+				auto targets = outer.find(letter.first);
+				if (targets == outer.end())
+					continue;
+				for (auto&& character : letter.second.second)
+					if (character != letter.first)
+						outer.insert(ymake_pair(character, targets->second));
+			}
 		}
-	}
 
 	auto dest = m_transitions.begin() + oldsize;
 	for (auto outer = rhs.m_transitions.begin(), outerEnd = rhs.m_transitions.end(); outer != outerEnd; ++outer, ++dest) {
@@ -418,6 +420,8 @@ void Fsm::Import(const Fsm& rhs)
 			dest->insert(ymake_pair(inner.first, targets));
 		}
 
+		if (!rhs.m_sparsed)
+			continue;
 		for (auto&& letter : rhs.letters) {
 			auto targets = dest->find(letter.first);
 			if (targets == dest->end())
-- 
2.43.0


From fb92f6b02719f231529dfd79fba6303459cc30cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 18/60] fix: append an UTF-8 dot to a canonized automaton
 without losing letters

---
 pire/encoding.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/encoding.cpp b/pire/encoding.cpp
index c5760c4..030cf61 100644
--- a/pire/encoding.cpp
+++ b/pire/encoding.cpp
@@ -105,6 +105,7 @@ namespace {
 
 		void AppendDot(Fsm& fsm) const
 		{
+			fsm.Unsparse();
 			size_t last = fsm.Resize(fsm.Size() + UtfRanges::MaxLen);
 			for (size_t i = 0; i < UtfRanges::MaxLen; ++i)
 				for (size_t letter = UtfRanges::First[i][0]; letter < UtfRanges::First[i][1]; ++letter)
-- 
2.43.0


From dbed820dbed70110d12095a179ff46197ef0881c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 19/60] fix: let a title case character match itself
 case-insensitively

---
 pire/re_lexer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pire/re_lexer.cpp b/pire/re_lexer.cpp
index 504f1da..cbcf6f6 100644
--- a/pire/re_lexer.cpp
+++ b/pire/re_lexer.cpp
@@ -351,11 +351,11 @@ namespace {
 				const CharSet& old = t.Value().As<Term::CharacterRange>().first;
 				CharSet altered;
 				for (auto&& i : old) {
+					altered.insert(i);
 					if (i.size() == 1) {
 						altered.insert(Term::String(1, to_upper(i[0])));
 						altered.insert(Term::String(1, to_lower(i[0])));
-					} else
-						altered.insert(i);
+					}
 				}
 				t = Term(t.Type(), Term::CharacterRange(altered, t.Value().As<Term::CharacterRange>().second));
 			}
-- 
2.43.0


From 633b701710129ae02d9bdc16f98a1be1639bae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:21 +0000
Subject: [PATCH 20/60] fix: copy of an empty SlowScanner must keep its
 transition table

---
 pire/scanners/slow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 1669389..c88b8e1 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -235,7 +235,7 @@ public:
 			m_actions = s.m_actions;
 			m_jumpPos = s.m_jumpPos;
 			m_letters = s.m_letters;
-			m_vecptr = 0;
+			m_vecptr = s.m_vecptr;
 		} else {
 			// In-memory scanner, perform deep copy
 			alloc(m_letters, MaxChar);
-- 
2.43.0


From 702d1ba54cae0d82a56a0e278785d39ac3f685d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 21/60] fix: ShortestSuffix must not step the begin mark after
 a match

---
 pire/run.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pire/run.h b/pire/run.h
index d359ed2..645740d 100644
--- a/pire/run.h
+++ b/pire/run.h
@@ -353,10 +353,10 @@ inline const char* ShortestSuffix(const Scanner& scanner, const char* rbegin, co
 	PIRE_IFDEBUG(Cdbg << "Initial state " << StDump(scanner, state) << Endl);
 
 	for (; rbegin != rend && !scanner.Final(state) && !scanner.Dead(state); --rbegin) {
-		scanner.Next(state, (unsigned char)*rbegin);
+		Step(scanner, state, (unsigned char)*rbegin);
 		PIRE_IFDEBUG(Cdbg << *rbegin << " => state " << StDump(scanner, state) << Endl);
 	}
-	if (throughBeginMark)
+	if (throughBeginMark && !scanner.Final(state))
 		Step(scanner, state, BeginMark);
 	return scanner.Final(state) ? rbegin : 0;
 }
-- 
2.43.0


From aeb809504383effb8da539c61f0a1289228179b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 22/60] fix: do not lose the longest prefix when skipping text
 by exit masks

---
 pire/scanners/multi.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 417e580..4d0e8b1 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -984,6 +984,10 @@ public:
 			// Do fast forwarding while it is possible
 			const Word* skipEnd = Shortcutting::Run(scanner, state, alignOffset, head, tail);
 			PIRE_IF_CHECKED(ValidateSkip(scanner, state, (const char*)head, (const char*)skipEnd));
+			if (skipEnd != head && pred(scanner, state, (const char*)skipEnd) == Stop) {
+				st = state;
+				return Stop;
+			}
 			head = skipEnd;
 			noShortcut = true;
 		}
-- 
2.43.0


From 35f0ce3875d553b8c37c6989a61af3620db630a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:07 +0000
Subject: [PATCH 23/60] fix: do not take match counts of a half-final automaton
 for state flags

---
 pire/scanners/half_final.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pire/scanners/half_final.h b/pire/scanners/half_final.h
index 5aca343..5214f3d 100644
--- a/pire/scanners/half_final.h
+++ b/pire/scanners/half_final.h
@@ -48,7 +48,12 @@ public:
 
 	explicit HalfFinalScanner(const HalfFinalFsm& fsm) {
 		Scanner::Init(fsm.GetFsm().Size(), fsm.GetFsm().Letters(), fsm.GetTotalCount(), fsm.GetFsm().Initial(), 1);
-		BuildScanner(fsm.GetFsm(), *this);
+		// Tags of the FSM are match counts, not flags of the scanner's states
+		Fsm untagged = fsm.GetFsm();
+		for (size_t state = 0; state < untagged.Size(); ++state) {
+			untagged.SetTag(state, 0);
+		}
+		BuildScanner(untagged, *this);
 		BuildFinals(fsm);
 	}
 
-- 
2.43.0


From 254edcb8ae010deaa057fdf7d4a8490df57b38cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:49 +0000
Subject: [PATCH 24/60] fix: let the table of glued states grow

---
 pire/glue.h | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/pire/glue.h b/pire/glue.h
index 456c30a..2618e7c 100644
--- a/pire/glue.h
+++ b/pire/glue.h
@@ -54,7 +54,7 @@ private:
 template <size_t N, class State>
 class GluedStateLookupTable {
 public:
-	static const size_t MaxSize = N;
+	static const size_t InitialSize = N;
 	typedef ypair<State, State> key_type;
 	typedef size_t mapped_type;
 	typedef ypair<key_type, mapped_type> value_type;
@@ -62,12 +62,14 @@ public:
 	typedef const value_type* const_iterator;
 
 	GluedStateLookupTable()
-		: mMap(new value_type[N])
+		: mSize(N)
+		, mCount(0)
+		, mMap(new value_type[N])
 		, mFilled(N, false)
 	{}
 	
 	const_iterator end() const {
-		return mMap.get() + MaxSize;
+		return mMap.get() + mSize;
 	}
 	// Note that in fact mMap is sparsed and traditional [begin,end)
 	// traversal is unavailable; hence no begin() method here.
@@ -80,8 +82,14 @@ public:
 	ypair<iterator, bool> insert(const value_type& v) {
 		size_t ind = Search(v.first);
 		if (!mFilled[ind]) {
+			if (mCount >= mSize / 4 * 3) {
+				// Keep free places for Search() to stop at
+				Grow();
+				ind = Search(v.first);
+			}
 			mMap[ind] = v;
 			mFilled[ind] = true;
+			++mCount;
 			return ymake_pair(mMap.get() + ind, true);
 		} else
 			return ymake_pair(mMap.get() + ind, false);
@@ -89,19 +97,33 @@ public:
 
 private:
 	size_t Search(const key_type& st) const {
-		size_t startInd = (Hash(st) % N);
-		for (size_t ind = startInd; ind != (startInd + N - 1) % N; ind = (ind + 1) % N) {
-			if (!mFilled[ind] || mMap[ind].first == st) {
-				return ind;
+		size_t ind = Hash(st) & (mSize - 1);
+		while (mFilled[ind] && !(mMap[ind].first == st))
+			ind = (ind + 1) & (mSize - 1);
+		return ind;
+	}
+
+	void Grow() {
+		std::unique_ptr<value_type[]> oldMap(new value_type[mSize * 2]);
+		TVector<bool> oldFilled(mSize * 2, false);
+		oldMap.swap(mMap);
+		oldFilled.swap(mFilled);
+		mSize *= 2;
+		for (size_t i = 0; i != mSize / 2; ++i) {
+			if (oldFilled[i]) {
+				size_t ind = Search(oldMap[i].first);
+				mMap[ind] = oldMap[i];
+				mFilled[ind] = true;
 			}
 		}
-		return -1;
 	}
 
 	static size_t Hash(const key_type& st) {
 		return size_t((st.first >> 2) ^ (st.second >> 4) ^ (st.second << 10));
 	}
 
+	size_t mSize;
+	size_t mCount;
 	std::unique_ptr<value_type[]> mMap;
 	TVector<bool> mFilled;
 
-- 
2.43.0


From e5d012d5f4daece868e05b675bc6f9f59a3dbeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 25/60] fix: keep greedy half-final counters complete

---
 pire/half_final_fsm.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index 692c2ee..f69e21b 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -110,7 +110,6 @@ namespace Pire {
 		if (simplify) {
 			fsm.Minimize();
 		}
-		fsm.RemoveDeadEnds();
 	}
 
 	namespace Impl {
-- 
2.43.0


From 92eae59c3a6ce37787f3b67e359732568321bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 26/60] fix: return the scanner from HalfFinalFsm::Compile

---
 pire/half_final_fsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/half_final_fsm.h b/pire/half_final_fsm.h
index 83828f8..2e14ed8 100644
--- a/pire/half_final_fsm.h
+++ b/pire/half_final_fsm.h
@@ -43,6 +43,6 @@ namespace Pire {
 
 	template<class Scanner>
 	Scanner HalfFinalFsm::Compile() const {
-		auto scanner = Scanner(*this);
+		return Scanner(*this);
 	}
 }
-- 
2.43.0


From 7142f6bbe1941ea4ae71d57c22dbd70f5ec7fd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 27/60] fix: fail when a saved scanner ends prematurely

---
 pire/stub/saveload.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pire/stub/saveload.h b/pire/stub/saveload.h
index eb9744f..3b4c3d0 100644
--- a/pire/stub/saveload.h
+++ b/pire/stub/saveload.h
@@ -150,6 +150,8 @@ namespace Pire {
 	void LoadPodType(yistream* s, T& t)
 	{
 		s->read((char*) &t, sizeof(t));
+		if (!*s)
+			throw Error("EOF reached while loading Pire object");
 	}
 	template<class T>
 	void Save(yostream* s, const T& t) { t.Save(s);}
@@ -167,6 +169,8 @@ namespace Pire {
 	void LoadPodArray(yistream* s, T* t, size_t len)
 	{
 		s->read((char*) t, len * sizeof(*t));
+		if (!*s)
+			throw Error("EOF reached while loading Pire object");
 	}
 };
 
-- 
2.43.0


From db95396e8e8c7a84540cd5860830a669cfaa3862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 28/60] fix: do not map beyond the end of a truncated image

---
 pire/align.h           | 5 +++--
 pire/scanners/common.h | 4 +++-
 pire/scanners/multi.h  | 7 +++----
 pire/scanners/simple.h | 7 +++----
 pire/scanners/slow.h   | 7 +++----
 5 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/pire/align.h b/pire/align.h
index 3c10b48..893e1cf 100644
--- a/pire/align.h
+++ b/pire/align.h
@@ -87,9 +87,10 @@ namespace Pire {
 		{
 			if (!IsAligned(p, sizeof(size_t))) {
 				const size_t* next = AlignUp(p, sizeof(size_t));
-				if (next > p+size)
+				size_t padding = (const char*) next - (const char*) p;
+				if (padding > size)
 					throw Error("EOF reached in NPire::Impl::align");
-				size -= (next - p);
+				size -= padding;
 				p = next;
 			}
 			return (const void*) p;
diff --git a/pire/scanners/common.h b/pire/scanners/common.h
index f01658d..8dc9e53 100644
--- a/pire/scanners/common.h
+++ b/pire/scanners/common.h
@@ -80,6 +80,8 @@ namespace Pire {
 	namespace Impl {
 		inline const void* AdvancePtr(const size_t*& ptr, size_t& size, size_t delta)
 		{
+			if (delta > size)
+				throw Error("EOF reached while mapping Pire scanner");
 			ptr = (const size_t*) ((const char*) ptr + delta);
 			size -= delta;
 			return (const void*) ptr;
@@ -88,7 +90,7 @@ namespace Pire {
 		template<class T>
 		inline void MapPtr(T*& field, size_t count, const size_t*& p, size_t& size)
 		{
-			if (size < count * sizeof(*field))
+			if (count > size / sizeof(*field))
 				throw Error("EOF reached while mapping Pire::SlowScanner");
 			field = (T*) p;
 			Impl::AdvancePtr(p, size, count * sizeof(*field));
diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 4d0e8b1..86e1fb4 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -260,11 +260,10 @@ public:
 		if (Shortcutting::Signature != s.m.shortcuttingSignature)
 			throw Error("This scanner has different shortcutting type");
 		
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
-		Impl::AlignPtr(p, size);
+		const bool* empty;
+		Impl::MapPtr(empty, 1, p, size);
 		
-		if (empty)
+		if (*empty)
 			s.Alias(Null());
 		else {
 			if (size < s.BufSize())
diff --git a/pire/scanners/simple.h b/pire/scanners/simple.h
index 9297ca5..802053e 100644
--- a/pire/scanners/simple.h
+++ b/pire/scanners/simple.h
@@ -133,11 +133,10 @@ public:
 		Impl::AdvancePtr(p, size, sizeof(s.m));
 		Impl::AlignPtr(p, size);
 
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
-		Impl::AlignPtr(p, size);
+		const bool* empty;
+		Impl::MapPtr(empty, 1, p, size);
 		
-		if (empty)
+		if (*empty)
 			s.Alias(Null());
 		else {
 			if (size < s.BufSize())
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index c88b8e1..7b06abe 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -181,11 +181,10 @@ public:
 		Impl::MapPtr(locals, 1, p, size);
 		memcpy(&s.m, locals, sizeof(s.m));
 		
-		bool empty = *((const bool*) p);
-		Impl::AdvancePtr(p, size, sizeof(empty));
-		Impl::AlignPtr(p, size);
+		const bool* empty;
+		Impl::MapPtr(empty, 1, p, size);
 		
-		if (empty)
+		if (*empty) {
 			s.Alias(Null());
 		else {
 			s.m_vecptr = 0;
-- 
2.43.0


From 67aa7a3e523cefa92e7cf3fc173494fc9477b626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 29/60] fix: validate the relocation signature on loading

---
 pire/scanners/multi.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 86e1fb4..5f53a0f 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -580,6 +580,8 @@ struct ScannerSaver {
 		Impl::ValidateHeader(s, ScannerIOTypes::Scanner, sizeof(sc.m));
 		LoadPodType(s, sc.m);
 		Impl::AlignLoad(s, sizeof(sc.m));
+		if (Relocatable::Signature != sc.m.relocationSignature)
+			throw Error("Type mismatch while loading Pire::Scanner");
 		if (Shortcutting::Signature != sc.m.shortcuttingSignature)
 			throw Error("This scanner has different shortcutting type");
 		bool empty;
-- 
2.43.0


From 96b2c801eb7754a76d8ab2846f74179074b5e26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 30/60] fix: let mapped scanners be saved

---
 pire/scanner_io.cpp   | 14 +++++++++++---
 pire/scanners/multi.h |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index 4f4256d..56a8e68 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -43,8 +43,7 @@ void SimpleScanner::Save(yostream* s) const
 	SavePodType(s, Empty());
 	Impl::AlignSave(s, sizeof(Empty()));
 	if (!Empty()) {
-		Y_ASSERT(m_buffer);
-		Impl::AlignedSaveArray(s, m_buffer.get(), BufSize());
+		Impl::AlignedSaveArray(s, reinterpret_cast<const char*>(m_transitions), BufSize());
 	}
 }
 
@@ -77,10 +76,19 @@ void SlowScanner::Save(yostream* s) const
 	SavePodType(s, Empty());
 	Impl::AlignSave(s, sizeof(Empty()));
 	if (!Empty()) {
-		Y_ASSERT(!m_vec.empty());
 		Impl::AlignedSaveArray(s, m_letters, MaxChar);
 		Impl::AlignedSaveArray(s, m_finals, m.statesCount);
 
+		if (IsMmaped()) {
+			size_t count = m_jumpPos[m.statesCount * m.lettersCount];
+			Impl::AlignedSaveArray(s, m_jumpPos, m.statesCount * m.lettersCount + 1);
+			Impl::AlignedSaveArray(s, m_jumps, count);
+			if (need_actions)
+				Impl::AlignedSaveArray(s, m_actions, count);
+			return;
+		}
+
+		Y_ASSERT(!m_vec.empty());
 		size_t c = 0;
 		SavePodType<size_t>(s, 0);
 		for (auto&& i : m_vec) {
diff --git a/pire/scanners/multi.h b/pire/scanners/multi.h
index 5f53a0f..db37b9e 100644
--- a/pire/scanners/multi.h
+++ b/pire/scanners/multi.h
@@ -568,7 +568,7 @@ struct ScannerSaver {
 		SavePodType(s, scanner.Empty());
 		Impl::AlignSave(s, sizeof(scanner.Empty()));
 		if (!scanner.Empty())
-			Impl::AlignedSaveArray(s, scanner.m_buffer.get(), scanner.BufSize());
+			Impl::AlignedSaveArray(s, reinterpret_cast<const char*>(scanner.m_letters), scanner.BufSize());
 	}
 
 	template<class Shortcutting>
-- 
2.43.0


From c59c24004f7a5764b9a9f6fdad555b58912d8785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 31/60] fix: map an empty scanner over an existing one

---
 pire/scanners/simple.h | 5 ++---
 pire/scanners/slow.h   | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pire/scanners/simple.h b/pire/scanners/simple.h
index 802053e..1a558a9 100644
--- a/pire/scanners/simple.h
+++ b/pire/scanners/simple.h
@@ -143,10 +143,9 @@ public:
 				throw Error("EOF reached while mapping NPire::Scanner");
 			s.Markup(const_cast<size_t*>(p));
 			s.m.initial += reinterpret_cast<size_t>(s.m_transitions);
-
-			Swap(s);
-			Impl::AdvancePtr(p, size, BufSize());
+			Impl::AdvancePtr(p, size, s.BufSize());
 		}
+		Swap(s);
 		return Impl::AlignPtr(p, size);
 	}
 
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 7b06abe..bd7f727 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -194,9 +194,9 @@ public:
 			Impl::MapPtr(s.m_jumps, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
 			if (need_actions)
 				Impl::MapPtr(s.m_actions, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
-			Swap(s);
 		}
 		return (const void*) p;
+		Swap(s);
 	}
 
 	void Swap(SlowScanner& s)
-- 
2.43.0


From 93f175dc9c225a8be33e8f715e785631240038d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 32/60] fix: keep slow capturing scanners capturing when loaded
 or mapped

---
 pire/scanner_io.cpp  | 6 +++---
 pire/scanners/slow.h | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index 56a8e68..0f92b70 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -126,10 +126,10 @@ void SlowScanner::Load(yistream* s)
 	bool empty;
 	LoadPodType(s, empty);
 	Impl::AlignLoad(s, sizeof(empty));
-	sc.need_actions = need_actions;
-	if (empty) {
+	if (empty)
 		sc.Alias(Null());
-	} else {
+	sc.need_actions = need_actions;
+	if (!empty) {
 		sc.m_vec.resize(sc.m.lettersCount * sc.m.statesCount);
 		if (sc.need_actions)
 			sc.m_actionsvec.resize(sc.m.lettersCount * sc.m.statesCount);
diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index bd7f727..39f0f59 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -173,7 +173,7 @@ public:
 	const void* Mmap(const void* ptr, size_t size)
 	{
 		Impl::CheckAlign(ptr);
-		SlowScanner s;
+		SlowScanner s(need_actions);
 		const size_t* p = reinterpret_cast<const size_t*>(ptr);
 
 		Impl::ValidateHeader(p, size, ScannerIOTypes::SlowScanner, sizeof(s.m));
@@ -186,7 +186,8 @@ public:
 		
 		if (*empty) {
 			s.Alias(Null());
-		else {
+			s.need_actions = need_actions;
+		} else {
 			s.m_vecptr = 0;
 			Impl::MapPtr(s.m_letters, MaxChar, p, size);
 			Impl::MapPtr(s.m_finals, s.m.statesCount, p, size);
-- 
2.43.0


From 34c0cb5fc7fee13d7d337878fd08d62bf4798002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 33/60] fix: let an empty loaded scanner stay empty when saved

---
 pire/scanner_io.cpp    | 3 +++
 pire/scanners/loaded.h | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/pire/scanner_io.cpp b/pire/scanner_io.cpp
index 0f92b70..a695030 100644
--- a/pire/scanner_io.cpp
+++ b/pire/scanner_io.cpp
@@ -188,6 +188,7 @@ void LoadedScanner::Save(yostream* s, ui32 type) const
 	Impl::AlignSave(s, sizeof(Header));
 	Locals mc = m;
 	mc.initial -= reinterpret_cast<size_t>(m_jumps);
+	mc.regexpsCount = RegexpsCount(); // no regexps mean an empty scanner
 	SavePodType(s, mc);
 	Impl::AlignSave(s, sizeof(mc));
 
@@ -219,6 +220,8 @@ void LoadedScanner::Load(yistream* s, ui32* type)
 	}
 	Impl::AlignedLoadArray(s, sc.m_tags, sc.m.statesCount);
 	sc.m.initial += reinterpret_cast<size_t>(sc.m_jumps);
+	if (!sc.m.regexpsCount)
+		sc.Alias(Null());
 	Swap(sc);
 }
 
diff --git a/pire/scanners/loaded.h b/pire/scanners/loaded.h
index cc91742..527ba1d 100644
--- a/pire/scanners/loaded.h
+++ b/pire/scanners/loaded.h
@@ -145,6 +145,8 @@ public:
 		Impl::MapPtr(s.m_tags, s.m.statesCount, p, size);
 
 		s.m.initial += reinterpret_cast<size_t>(s.m_jumps);
+		if (!s.m.regexpsCount)
+			s.Alias(Null());
 		Swap(s);
 
 		return (const void*) p;
-- 
2.43.0


From 0e2c31ef3b9beb176f682ce2e2f2a6c0de62b667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 34/60] fix: do not mix earlier contents into a loaded counting
 scanner

---
 pire/extra/count.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 270d9b3..66e1fc8 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -1018,25 +1018,24 @@ void NoGlueLimitCountingScanner::Save(yostream* s) const {
 }
 
 void NoGlueLimitCountingScanner::Load(yistream* s) {
+	NoGlueLimitCountingScanner scanner;
 	ui32 type;
-	LoadedScanner::Load(s, &type);
+	scanner.LoadedScanner::Load(s, &type);
 	ActionIndex actionsSize;
 	if (type == ScannerIOTypes::NoGlueLimitCountingScanner) {
 		LoadPodType(s, actionsSize);
 
-		if (actionsSize == 0) {
-			ActionsBuffer.reset();
-			Actions = nullptr;
-		} else {
-			ActionsBuffer = TActionsBuffer(new ActionIndex[actionsSize]);
-			ActionsBuffer[0] = actionsSize;
-			LoadPodArray(s, &ActionsBuffer[1], actionsSize - 1);
-			Actions = ActionsBuffer.get();
+		if (actionsSize != 0) {
+			scanner.ActionsBuffer = TActionsBuffer(new ActionIndex[actionsSize]);
+			scanner.ActionsBuffer[0] = actionsSize;
+			LoadPodArray(s, &scanner.ActionsBuffer[1], actionsSize - 1);
+			scanner.Actions = scanner.ActionsBuffer.get();
 		}
 	} else {
 		Y_ASSERT(type == ScannerIOTypes::LoadedScanner);
-		AdvancedScannerCompatibilityMode = true;
+		scanner.AdvancedScannerCompatibilityMode = true;
 	}
+	Swap(scanner);
 }
 
 const void* NoGlueLimitCountingScanner::Mmap(const void* ptr, size_t size) {
@@ -1045,6 +1044,9 @@ const void* NoGlueLimitCountingScanner::Mmap(const void* ptr, size_t size) {
 	auto p = static_cast<const size_t*> (scanner.LoadedScanner::Mmap(ptr, size, &type));
 
 	if (type == ScannerIOTypes::NoGlueLimitCountingScanner) {
+		size -= reinterpret_cast<const char*>(p) - static_cast<const char*>(ptr);
+		if (size < sizeof(ActionIndex))
+			throw Error("EOF reached while mapping NoGlueLimitCountingScanner");
 		scanner.Actions = reinterpret_cast<const ActionIndex*>(p);
 		if (*scanner.Actions == 0) {
 			scanner.Actions = nullptr;
-- 
2.43.0


From 730aa717ad6263fc7050dfe415c33926e209d403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 35/60] fix: let slow capturing scanners be assigned

---
 pire/extra/capture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index 213ee44..e534796 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -179,7 +179,7 @@ public:
 		FinalFlag = 1,
 	};
 
-	const ui32 ActionsCapture = BeginCapture | EndCapture;
+	static const ui32 ActionsCapture = BeginCapture | EndCapture;
 
 	class SingleState {
 	public:
-- 
2.43.0


From a95f31d5a9528957c5c0331705ccfcbb2c097849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 36/60] fix: do not crash running a default-constructed slow
 capturing scanner

---
 pire/extra/capture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index e534796..0fd2d18 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -395,7 +395,7 @@ public:
 			size_t posEnd = pos[1];
 			for (size_t i = posBegin; i < posEnd; ++i)
 				nextStates.emplace_back(GetJump(i), GetAction(i));
-		} else {
+		} else if (!Empty()) {
 			size_t num = GetPosition(state, letter);
 			const auto& jumpVec = GetJumpsVec(num);
 			const auto& actionVec = GetActionsVec(num);
-- 
2.43.0


From c7e11b538e5868534a5fb9dcf3a9117f2bfb2581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 37/60] fix: map an empty slow scanner over an existing one

---
 pire/scanners/slow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/scanners/slow.h b/pire/scanners/slow.h
index 39f0f59..0437662 100644
--- a/pire/scanners/slow.h
+++ b/pire/scanners/slow.h
@@ -196,8 +196,8 @@ public:
 			if (need_actions)
 				Impl::MapPtr(s.m_actions, s.m_jumpPos[s.m.statesCount * s.m.lettersCount], p, size);
 		}
-		return (const void*) p;
 		Swap(s);
+		return (const void*) p;
 	}
 
 	void Swap(SlowScanner& s)
-- 
2.43.0


From 817369c7889f51eb3705cabac868f5f489bf392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 38/60] fix: keep all letters when packing a packed automaton

---
 pire/fsm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 0f4baa7..7b21a94 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -874,6 +874,7 @@ bool Fsm::LettersEquality::operator()(Char a, Char b) const
 
 void Fsm::Sparse(bool needEpsilons /* = false */)
 {
+	Unsparse();
 	letters = LettersTbl(LettersEquality(m_transitions));
 	for (unsigned letter = 0; letter < MaxChar; ++letter)
 		if (letter != Epsilon || needEpsilons)
-- 
2.43.0


From 09439fabed243b13492064650de4f614ee033118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:04 +0000
Subject: [PATCH 39/60] fix: count a longer match of the greedy half-final
 counter once

---
 pire/half_final_fsm.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index f69e21b..d108816 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -185,9 +185,11 @@ namespace Pire {
 
 			void AddState(size_t state, size_t count, bool reachedFinal, bool force = false) {
 				size_t newLastFinalCount = LastFinalCount;
-				if (mFsm.IsFinal(state) && !reachedFinal) {
-					++count;
-					reachedFinal = true;
+				if (mFsm.IsFinal(state)) {
+					if (!reachedFinal) {
+						++count;
+						reachedFinal = true;
+					}
 					newLastFinalCount = count;
 				}
 				for (const auto& addedState : States) {
-- 
2.43.0


From 358e6f87b70a617596daf84245f482193c842a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 40/60] fix: keep the count of the latest match when a greedy
 counter's match is back at the start

---
 pire/half_final_fsm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/half_final_fsm.cpp b/pire/half_final_fsm.cpp
index d108816..6b372df 100644
--- a/pire/half_final_fsm.cpp
+++ b/pire/half_final_fsm.cpp
@@ -193,7 +193,7 @@ namespace Pire {
 					newLastFinalCount = count;
 				}
 				for (const auto& addedState : States) {
-					if (addedState.State == state) {
+					if (addedState.State == state && !force) {
 						return;
 					}
 				}
-- 
2.43.0


From dbcf54ac3bcb977cc6a91f2a1e83d4ffffa45c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:37 +0000
Subject: [PATCH 41/60] fix: minimization keeps the outputs of transitions

---
 pire/fsm.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 7b21a94..717f477 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -1085,14 +1085,23 @@ public:
 	{
 		Y_ASSERT(mFsm.IsDetermined());
 
-		TMap<bool, size_t> FinalStateClassMap;
+		// States with different outputs must not be merged, even if they accept the same strings
+		typedef ypair< bool, TVector<unsigned long> > StateTraits;
+		TMap<StateTraits, size_t> StateClassMap;
 
 		for (size_t state = 0; state < mFsm.Size(); ++state) {
 			reversedTransitions[state].resize(mFsm.Letters().Size());
-			if (FinalStateClassMap.find(mFsm.IsFinal(state)) == FinalStateClassMap.end()) {
-				FinalStateClassMap[mFsm.IsFinal(state)] = Classes++;
+			StateTraits traits;
+			traits.first = mFsm.IsFinal(state);
+			if (mFsm.outputs.find(state) != mFsm.outputs.end())
+				for (auto&& transition : mFsm.m_transitions[state])
+					traits.second.push_back(mFsm.Output(state, *transition.second.begin()));
+			if (traits.second == TVector<unsigned long>(traits.second.size(), 0))
+				traits.second.clear();
+			if (StateClassMap.find(traits) == StateClassMap.end()) {
+				StateClassMap[traits] = Classes++;
 			}
-			StateClass[state] = FinalStateClassMap[mFsm.IsFinal(state)];
+			StateClass[state] = StateClassMap[traits];
 		}
 
 		for (size_t state = 0; state < mFsm.Size(); ++state) {
@@ -1168,6 +1177,14 @@ public:
 	typedef bool Result;
 
 	Result Success() {
+		// Outputs are bound to pairs of states, hence merging the destinations of transitions
+		// with different outputs would mix these outputs up
+		for (auto&& output : mFsm.outputs)
+			for (auto&& transition : mFsm.m_transitions[output.first]) {
+				size_t to = *transition.second.begin();
+				if (mFsm.Output(output.first, to) != mNewFsm.Output(StateClass[output.first], StateClass[to]))
+					return false;
+			}
 		return true;
 	}
 
-- 
2.43.0


From 5beaac59c6017a598a575ea053512414ea9612f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:55 +0000
Subject: [PATCH 42/60] fix: outputs survive chains of empty transitions

---
 pire/fsm.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 717f477..64c2f00 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -805,14 +805,13 @@ void Fsm::ShortCutEpsilon(size_t from, size_t thru, TVector< TSet<size_t> >& inv
 {
 	PIRE_IFDEBUG(Cdbg << "In Fsm::ShortCutEpsilon(" << from << ", " << thru << ")\n");
 	const StatesSet& to = Destinations(thru, Epsilon);
-	Outputs::iterator outIt = outputs.find(from);
 	unsigned long fromThruOut = Output(from, thru);
 	for (auto&& toElement : to) {
 		PIRE_IFDEBUG(Cdbg << "Epsilon connecting " << from << " --> " << thru << " --> " << toElement << "\n");
 		Connect(from, toElement, Epsilon);
 		inveps[toElement].insert(from);
-		if (outIt != outputs.end())
-			outIt->second[toElement] |= (fromThruOut | Output(thru, toElement));
+		if (unsigned long out = fromThruOut | Output(thru, toElement))
+			outputs[from][toElement] |= out;
 	}
 }
 
-- 
2.43.0


From 55b11bee4c3fcd3a08622eac4bf2b432f00fb218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:48 +0000
Subject: [PATCH 43/60] fix: leaving a repetition has its priority inside that
 repetition only

---
 pire/extra/capture.cpp | 8 ++++++--
 pire/extra/capture.h   | 8 +++++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/pire/extra/capture.cpp b/pire/extra/capture.cpp
index 1c262d3..dc83c8a 100644
--- a/pire/extra/capture.cpp
+++ b/pire/extra/capture.cpp
@@ -93,15 +93,19 @@ namespace {
 
 		void SetRepetitionMark(Fsm& fsm, bool greedy)
 		{
-			fsm.Resize(fsm.Size() + 1);
+			fsm.Resize(fsm.Size() + 2);
+			fsm.Connect(fsm.Size() - 2, fsm.Initial());
 			fsm.ConnectFinal(fsm.Size() - 1);
 
-			for (size_t state = 0; state < fsm.Size() - 1; ++state)
+			fsm.SetOutput(fsm.Size() - 2, fsm.Initial(), SlowCapturingScanner::BeginRepetition);
+			for (size_t state = 0; state < fsm.Size() - 2; ++state)
 				if (fsm.IsFinal(state))
 					if (greedy)
 						fsm.SetOutput(state, fsm.Size() - 1, SlowCapturingScanner::EndRepetition);
 					else
 						fsm.SetOutput(state, fsm.Size() - 1, SlowCapturingScanner::EndNonGreedyRepetition);
+
+			fsm.SetInitial(fsm.Size() - 2);
 			fsm.ClearFinal();
 			fsm.SetFinal(fsm.Size() - 1, true);
 			fsm.SetIsDetermined(false);
diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index 0fd2d18..945dbc1 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -175,6 +175,7 @@ public:
 		EndCapture   = 2,
 		EndRepetition = 4,
 		EndNonGreedyRepetition = 8,
+		BeginRepetition = 16,
 
 		FinalFlag = 1,
 	};
@@ -436,7 +437,12 @@ public:
 			PriorityStates statesInside;
 			NextAndGetToGroups(statesInside, state, Translate(Epsilon), pos, used);
 			statesInside.Push(state, NoRepetition);
-			if (action & EndNonGreedyRepetition) {
+			if (action & BeginRepetition) {
+				// The priority of leaving a repetition only matters inside that repetition
+				auto& nothing = states.Get(NoRepetition);
+				InsertStates(statesInside, nothing, nothing, nothing);
+			}
+			else if (action & EndNonGreedyRepetition) {
 				auto& nongreedy = states.Get(NonGreedyRepetition);
 				InsertStates(statesInside, nongreedy, nongreedy, nongreedy);
 			}
-- 
2.43.0


From 5a1e65a7f2f812240ee2377769becfa1d1d36ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 44/60] fix: match at the end of the text only there, whatever
 way leads there

---
 pire/extra/capture.h | 67 +++++++++++++-------------------------------
 1 file changed, 20 insertions(+), 47 deletions(-)

diff --git a/pire/extra/capture.h b/pire/extra/capture.h
index 945dbc1..3e1c7f6 100644
--- a/pire/extra/capture.h
+++ b/pire/extra/capture.h
@@ -455,72 +455,45 @@ public:
 		}
 	}
 
-	bool Captured(const SingleState& st, bool& matched) const
+	// Finds the most preferred way to match for a text that ends in this state
+	bool MatchedAtEnd(const SingleState& st, size_t pos, SingleState& final) const
 	{
-		matched = false;
 		if (IsFinal(st.GetNum())) {
-			matched = true;
-			if (st.HasBegin())
-				return true;
+			final = st;
+			return true;
 		}
-		TVector<Transition> nextStates;
-		NextStates(st, Translate(EndMark), nextStates);
-		for (const auto& trans : nextStates)
-		{
-			size_t state = trans.GetState();
-			if (IsFinal(state)) {
-				matched = true;
-				if (st.HasBegin() || (trans.GetAction() & ActionsCapture))
+		PriorityStates states;
+		TVector<bool> used(GetSize());
+		NextAndGetToGroups(states, st, Translate(EndMark), pos, used);
+		for (const auto type : {NonGreedyRepetition, NoRepetition, GreedyRepetition}) {
+			for (const auto& state : states.Get(type)) {
+				if (IsFinal(state.GetNum())) {
+					final = state;
 					return true;
-			} else { // After EndMark there can be Epsilon-transitions to the Final State
-				TVector<Transition> epsilonTrans;
-				SingleState newSt(state);
-				NextStates(newSt, Translate(Epsilon), epsilonTrans);
-				for (auto new_trans : epsilonTrans) {
-					size_t fin = new_trans.GetState();
-					if (IsFinal(fin)) {
-						matched = true;
-						if (st.HasBegin() || (trans.GetAction() & ActionsCapture))
-							return true;
-					}
 				}
 			}
 		}
 		return false;
 	}
 
-	bool Matched(const SingleState& st) const
-	{
-		bool matched;
-		Captured(st, matched);
-		return matched;
-	}
-
 	bool GetCapture(const State& st, SingleState& final) const
 	{
-		size_t pos = 0;
-		bool matched = false;
-		bool ans = false;
-		while (pos < st.GetSize() && !matched) {
-			ans = Captured(st.GetState(pos), matched);
-			++pos;
+		for (size_t pos = 0; pos < st.GetSize(); ++pos) {
+			if (MatchedAtEnd(st.GetState(pos), st.GetPos(), final))
+				return final.HasBegin();
 		}
-		if (matched) {
-			final = st.GetState(pos - 1);
-			return ans;
-		} else {
-			if (st.IsMatched()) {
-				final = st.GetMatched();
-				return true;
-			}
-			return false;
+		if (st.IsMatched()) {
+			final = st.GetMatched();
+			return true;
 		}
+		return false;
 	}
 
 	bool PushState(State& nlist, const SingleState& state) const
 	{
 		nlist.PushState(state);
-		if (Matched(state)) {
+		// A state that only matches at the end of the text does not match if the text goes on
+		if (IsFinal(state.GetNum())) {
 			nlist.AddMatch(state);
 			return true;
 		}
-- 
2.43.0


From bb4b62959ccc6a23038642301d25cf99525d771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:27 +0000
Subject: [PATCH 45/60] fix: approximate matching inserts characters where
 nothing may follow, too

---
 pire/approx_matching.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pire/approx_matching.cpp b/pire/approx_matching.cpp
index 23f74ca..500c93c 100644
--- a/pire/approx_matching.cpp
+++ b/pire/approx_matching.cpp
@@ -53,10 +53,10 @@ namespace Pire {
 
 						approxFsm.Connect(state + shift, to + shift + regexp.Size(), Epsilon);
 					}
+				}
 
-					for (Char ch = 0; ch < MaxChar; ++ch) {
-						approxFsm.Connect(state + shift, state + shift + regexp.Size(), ch);
-					}
+				for (Char ch = 0; ch < MaxChar; ++ch) {
+					approxFsm.Connect(state + shift, state + shift + regexp.Size(), ch);
 				}
 
 				if (regexp.IsFinal(state)) {
-- 
2.43.0


From 1fd311ee959989699d071b1395dd473e6d545732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:34 +0000
Subject: [PATCH 46/60] fix: approximate matching of automata with letter
 classes

---
 pire/approx_matching.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pire/approx_matching.cpp b/pire/approx_matching.cpp
index 500c93c..d983ac8 100644
--- a/pire/approx_matching.cpp
+++ b/pire/approx_matching.cpp
@@ -23,8 +23,12 @@
 #include "approx_matching.h"
 
 namespace Pire {
-	Fsm CreateApproxFsm(const Fsm& regexp, size_t distance) {
+	Fsm CreateApproxFsm(const Fsm& source, size_t distance) {
+		// Edits change letters, not classes of letters
+		Fsm regexp = source;
+		regexp.Unsparse();
 		Fsm approxFsm = regexp;
+		approxFsm.SetIsDetermined(false);
 
 		TVector<TSet<Char>> outgoingLettersTable(regexp.Size());
 		for (size_t state = 0; state < regexp.Size(); ++state) {
@@ -69,16 +73,18 @@ namespace Pire {
 		for (size_t state = 0; state < maxState; ++state) {
 			size_t currentDist = state / regexp.Size();
 			size_t intState = state % regexp.Size();
+			TMap<ypair<size_t, size_t>, size_t> middles;
 
 			for (Char firstLetter : outgoingLettersTable[intState]) {
 				for (size_t firstDest : destinationsTable[intState][firstLetter]) {
 					for (Char secondLetter : outgoingLettersTable[firstDest]) {
 						for (size_t secondDest : destinationsTable[firstDest][secondLetter]) {
 							if (secondDest != intState || firstDest != intState) {
-								approxFsm.Resize(approxFsm.Size() + 1);
-
 								size_t to = secondDest + (currentDist + 1) * regexp.Size();
-								size_t middle = approxFsm.Size() - 1;
+								size_t& middle = middles[ymake_pair(firstDest, secondDest)];
+								if (!middle) {
+									middle = approxFsm.Resize(approxFsm.Size() + 1);
+								}
 
 								approxFsm.Connect(state, middle, secondLetter);
 								approxFsm.Connect(middle, to, firstLetter);
-- 
2.43.0


From aa0ce902c204d7c8010227f54b82ac6a1628cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:42 +0000
Subject: [PATCH 47/60] fix: approximate matching swaps characters across empty
 transitions

---
 pire/approx_matching.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/pire/approx_matching.cpp b/pire/approx_matching.cpp
index d983ac8..72924ea 100644
--- a/pire/approx_matching.cpp
+++ b/pire/approx_matching.cpp
@@ -69,6 +69,28 @@ namespace Pire {
 			}
 		}
 
+		// Letters with nothing but empty transitions between them are adjacent, too
+		for (size_t state = 0; state < regexp.Size(); ++state) {
+			TVector<size_t> reachable(1, state);
+			for (size_t i = 0; i < reachable.size(); ++i) {
+				size_t from = reachable[i];
+				for (Char letter : regexp.OutgoingLetters(from)) {
+					const auto& to = regexp.Destinations(from, letter);
+					if (letter != Epsilon) {
+						outgoingLettersTable[state].insert(letter);
+						destinationsTable[state][letter].insert(to.begin(), to.end());
+						continue;
+					}
+					for (size_t dest : to) {
+						if (std::find(reachable.begin(), reachable.end(), dest) == reachable.end()) {
+							reachable.push_back(dest);
+						}
+					}
+				}
+			}
+			outgoingLettersTable[state].erase(Epsilon);
+		}
+
 		size_t maxState = (distance > 0) ? approxFsm.Size() - regexp.Size() : 0;
 		for (size_t state = 0; state < maxState; ++state) {
 			size_t currentDist = state / regexp.Size();
-- 
2.43.0


From a6ef9956279a07d1dd7937263e34d3219e7ab4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:17 +0000
Subject: [PATCH 48/60] fix: pire_inline reads strings and character literals
 to their end

---
 pire/inline.lpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 174d2e3..20d271e 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -68,6 +68,7 @@ Die DieHelper() {
 void putChar(char c) { putc(c, yyout); }
 void suppressChar(char) {}
 void eatComment(void (*action)(char));
+void countLines();
 
 #define YY_FATAL_ERROR(msg) DieHelper() << msg
 %}
@@ -80,12 +81,14 @@ void eatComment(void (*action)(char));
 <INITIAL>"//".*\n        { ++line; fprintf(yyout, "%s", yytext); }
 <Regexp>"//".*\n         { ++line; }
 <INITIAL>"\\".           { fprintf(yyout, "%s", yytext); if (yytext[1] == '\n') ++line; }
-"\""([^\"]|\\.)*"\""     { fprintf(yyout, "%s", yytext); }
+<INITIAL>"\""([^\"\\]|\\(.|\n))*"\"" { countLines(); fprintf(yyout, "%s", yytext); }
+<INITIAL>"'"([^\'\\\n]|\\.)+"'" { fprintf(yyout, "%s", yytext); }
 \n                       { ++line; putc('\n', yyout); }
 
 
 <INITIAL>"PIRE_REGEXP"[:space:]*"(" { BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
-<Regexp>"\""([^\"]|\\.)*"\"" {
+<Regexp>"\""([^\"\\]|\\(.|\n))*"\"" {
+	countLines();
 	ystring& s = args.back();
 	const char* p;
 	for (p = yytext + 1; *p && p[1]; ++p) {
@@ -203,6 +206,11 @@ void eatComment(void (*action)(char));
 
 %%
 
+void countLines()
+{
+	line += std::count(yytext, yytext + yyleng, '\n');
+}
+
 void eatComment(void (*action)(char))
 {
 	int c;
-- 
2.43.0


From d751cb9ecef686c04a774ff2f2c217ab0daaa894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:27 +0000
Subject: [PATCH 49/60] fix: pire_inline reads numeric escape sequences

---
 pire/inline.lpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 20d271e..60d1c51 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -102,16 +102,18 @@ void countLines();
 				s.push_back('\n');
 			else if (*p == 't')
 				s.push_back('\t');
-			else if (isdigit(*p)) {
+			else if (*p >= '0' && *p <= '7') {
 				const char* beg = p;
-				while (isdigit(*p))
+				while (p != beg + 3 && *p >= '0' && *p <= '7')
 					++p;
 				s.push_back(strtol(ystring(beg, p).c_str(), 0, 8));
-			} else if (*p == 'x') {
-				const char* beg = p;
-				while (isdigit(*p) || (*p > 'a' && *p <= 'f') || (*p > 'A' && *p < 'F'))
+				--p;
+			} else if (*p == 'x' && isxdigit(p[1])) {
+				const char* beg = ++p;
+				while (isxdigit(*p))
 					++p;
 				s.push_back(strtol(ystring(beg, p).c_str(), 0, 16));
+				--p;
 			} else
 				Die() << "unknown escape sequence (\\" <<  *p << ")";
 		} else
-- 
2.43.0


From 5b48055c421af1aa5d8312cfe025c1e40c40b710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:38 +0000
Subject: [PATCH 50/60] fix: pire_inline keeps comments as they are

---
 pire/inline.lpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 60d1c51..ab364c0 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -218,7 +218,8 @@ void eatComment(void (*action)(char))
 	int c;
 	action('/'); action('*');
 	for (;;) {
-		while ((c = yyinput()) != EOF && c != '*') {
+		// yyinput() returns either EOF or zero at the end of the file
+		while ((c = yyinput()) != EOF && c != 0 && c != '*') {
 			if (c == '\n')
 				++line;
 			action(c);
@@ -231,8 +232,13 @@ void eatComment(void (*action)(char))
 				action(c);
 				break;
 			}
+			if (c != EOF && c != 0) {
+				if (c == '\n')
+					++line;
+				action(c);
+			}
 		}
-		if (c == EOF)
+		if (c == EOF || c == 0)
 			Die() << "EOF in comment";
 	}
 }
-- 
2.43.0


From 9247ee24210e281188982cbd0cd55901118ace8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:51 +0000
Subject: [PATCH 51/60] fix: pire_inline decodes patterns in their encoding

---
 pire/inline.lpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index ab364c0..d81f25f 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -135,7 +135,7 @@ void countLines();
 	ystring pattern;
 	for (auto i = args.begin(), ie = args.end(); i != ie; i += 2) {
 
-		Pire::Lexer lexer(i->c_str(), i->c_str() + i->size());
+		Pire::Lexer lexer;
 		bool surround = false;
 		bool greedy = false;
 		bool reverse = false;
@@ -158,6 +158,9 @@ void countLines();
 
 		Pire::Fsm fsm;
 		try {
+			TVector<Pire::wchar32> ucs4;
+			lexer.Encoding().FromLocal(i->c_str(), i->c_str() + i->size(), std::back_inserter(ucs4));
+			lexer.Assign(ucs4.begin(), ucs4.end());
 			fsm = lexer.Parse();
 		}
 		catch (std::exception& e) {
-- 
2.43.0


From 42977173c0ab55b6bb68b34425e74b16fcc8cb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:01 +0000
Subject: [PATCH 52/60] fix: pire_inline refuses what it cannot compile

---
 pire/inline.lpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index d81f25f..2b981fd 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -122,7 +122,7 @@ void countLines();
 	if (!*p)
 		Die() << "string ends with a backslash";
 }
-<Regexp>[ \t]            {}
+<Regexp>[ \t\r]          {}
 <Regexp>\n               { ++line; }
 <Regexp>","              { args.push_back(ystring()); }
 <Regexp>")" {
@@ -182,6 +182,8 @@ void countLines();
 			tsc.Swap(sc);
 		} else {
 			sc = Pire::Scanner::Glue(sc, tsc);
+			if (sc.Empty())
+				Die() << "regexps are too complicated to be glued together";
 			pattern += " | ";
 			pattern += *i;
 		}
@@ -204,6 +206,8 @@ void countLines();
 		(unsigned int) buf.Buffer().Size(), line, filename.c_str());
 	BEGIN(INITIAL);
 }
+<Regexp>.                { Die() << "unexpected character '" << *yytext << "' in PIRE_REGEXP"; }
+<Regexp><<EOF>>          { Die() << "EOF in PIRE_REGEXP"; }
 <INITIAL>.               { putc(*yytext, yyout); }
 
 
-- 
2.43.0


From e3b6349bf7e0192e89084ae7d6a730c953d58c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:13 +0000
Subject: [PATCH 53/60] fix: pire_inline writes a comment that stays a comment

---
 pire/inline.lpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index 2b981fd..fb1d282 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -193,7 +193,11 @@ void countLines();
 	AlignedOutput stream(&buf);
 	Save(&stream, sc);
 
-	fprintf(yyout, "Pire::MmappedScanner<Pire::Scanner>(PIRE_LITERAL( // %s \n    \"", pattern.c_str());
+	// Neither a line break nor a backslash at the end may get into the comment
+	for (auto& c : pattern)
+		if (c == '\n' || c == '\r' || c == 0)
+			c = ' ';
+	fprintf(yyout, "Pire::MmappedScanner<Pire::Scanner>(PIRE_LITERAL( // \"%s\"\n    \"", pattern.c_str());
 	size_t pos = 5;
 	for (auto i = buf.Buffer().Begin(), ie = buf.Buffer().End(); i != ie; ++i) {
 		pos += fprintf(yyout, "\\x%02X", static_cast<unsigned char>(*i));
-- 
2.43.0


From a2d0d4a160bd4d873e3188cacb76520d2ab35a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:23 +0000
Subject: [PATCH 54/60] fix: pire_inline allows spaces before the parenthesis

---
 pire/inline.lpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/inline.lpp b/pire/inline.lpp
index fb1d282..86d3db4 100644
--- a/pire/inline.lpp
+++ b/pire/inline.lpp
@@ -86,7 +86,7 @@ void countLines();
 \n                       { ++line; putc('\n', yyout); }
 
 
-<INITIAL>"PIRE_REGEXP"[:space:]*"(" { BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
+<INITIAL>"PIRE_REGEXP"[ \t]*"(" { BEGIN(Regexp); args.clear(); args.push_back(ystring()); }
 <Regexp>"\""([^\"\\]|\\(.|\n))*"\"" {
 	countLines();
 	ystring& s = args.back();
-- 
2.43.0


From a3199f332e50a62c04f5b8542aa9dc180b4410ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:56 +0000
Subject: [PATCH 55/60] fix: glue limit-free counting scanners which were
 loaded from advanced ones

---
 pire/extra/count.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pire/extra/count.h b/pire/extra/count.h
index 9dd9872..9fc8710 100644
--- a/pire/extra/count.h
+++ b/pire/extra/count.h
@@ -456,6 +456,17 @@ private:
 		if (!a) {
 			return;
 		}
+		if (AdvancedScannerCompatibilityMode) {
+			for (size_t id = 0; id < RegexpsCount(); ++id) {
+				if (a & (1 << (MAX_RE_COUNT + id))) {
+					*output_resets++ = id + id_shift;
+				}
+				if (a & (1 << id)) {
+					*output_increments++ = id + id_shift;
+				}
+			}
+			return;
+		}
 		if (!Actions) {
 			if (a & ResetAction) {
 				*output_resets++ = id_shift;
-- 
2.43.0


From 88d6b77c49829e5d7c3a6e781f4f19196a925535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:14 +0000
Subject: [PATCH 56/60] fix: save a limit-free counting scanner which was
 loaded from an advanced one

---
 pire/extra/count.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pire/extra/count.cpp b/pire/extra/count.cpp
index 66e1fc8..fcba550 100644
--- a/pire/extra/count.cpp
+++ b/pire/extra/count.cpp
@@ -1007,7 +1007,10 @@ NoGlueLimitCountingScanner NoGlueLimitCountingScanner::Glue(const NoGlueLimitCou
 // Should Save(), Load() and Mmap() functions return stream/pointer in aligned state?
 // Now they don't because tests don't require it.
 void NoGlueLimitCountingScanner::Save(yostream* s) const {
-	Y_ASSERT(!AdvancedScannerCompatibilityMode);
+	if (AdvancedScannerCompatibilityMode) {
+		LoadedScanner::Save(s);
+		return;
+	}
 	LoadedScanner::Save(s, ScannerIOTypes::NoGlueLimitCountingScanner);
 	if (Actions) {
 		SavePodArray(s, Actions, *Actions);
-- 
2.43.0


From fb04aa122c6f757a7dca798e10f23f9d704fd75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:17 +0000
Subject: [PATCH 57/60] fix: choosing another initial state drops the
 alternation hint

---
 pire/fsm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/fsm.h b/pire/fsm.h
index e76efbf..90e6923 100644
--- a/pire/fsm.h
+++ b/pire/fsm.h
@@ -181,7 +181,7 @@ namespace Pire {
 		/// Checks whether two states are connected using any letter.
 		bool Connected(size_t from, size_t to) const;
 		size_t Initial() const { return initial; }
-		void SetInitial(size_t init) { initial = init; }
+		void SetInitial(size_t init) { initial = init; ClearHints(); }
 		
 		const LettersTbl& Letters() const { return letters; }
 		
-- 
2.43.0


From cf6d27e5ec90dc58d76f63a00f6eeb63fa0b1b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:33 +0000
Subject: [PATCH 58/60] fix: OutgoingLetters leaves out letters without
 transitions

---
 pire/fsm.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 64c2f00..02317ec 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -239,7 +239,8 @@ TSet<Char> Fsm::OutgoingLetters(size_t state) const
 {
 	TSet<Char> ret;
 	for (auto&& i : m_transitions[state])
-		ret.insert(i.first);
+		if (!i.second.empty())
+			ret.insert(i.first);
 	return ret;
 }
 
-- 
2.43.0


From 8e0b894a07d224e2cec5eba066c28ffa1239cde0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:49 +0000
Subject: [PATCH 59/60] fix: dump the transitions an unpacked automaton has

---
 pire/fsm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index 02317ec..aab3a74 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -81,7 +81,7 @@ void Fsm::DumpState(yostream& s, size_t state) const
 				std::cerr << "WTF?! Transition from " << state << " on letter " << transition.first << " leads to non-existing state " << transitionState << "\n";
 				Y_ASSERT(false);
 			}
-			if (Letters().Contains(transition.first)) {
+			if (m_sparsed && Letters().Contains(transition.first)) {
 				const TVector<Char>& letters = Letters().Klass(Letters().Representative(transition.first));
 				for (auto&& letter : letters)
 					row[transitionState].set(letter);
-- 
2.43.0


From f86dd1c774f41af8029cdf5f2ee8944edfcc329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:08 +0000
Subject: [PATCH 60/60] fix: dump states without transitions

---
 pire/fsm.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/pire/fsm.cpp b/pire/fsm.cpp
index aab3a74..ce9f9a0 100644
--- a/pire/fsm.cpp
+++ b/pire/fsm.cpp
@@ -90,6 +90,22 @@ void Fsm::DumpState(yostream& s, size_t state) const
 		}
 
 	bool statePrinted = false;
+	auto printState = [&]() {
+		if (statePrinted)
+			return;
+		s << "    " << state << "[shape=\"" << (IsFinal(state) ? "double" : "") << "circle\",label=\"" << state;
+		auto ti = tags.find(state);
+		if (ti != tags.end())
+			s << " (tags: " << ti->second << ")";
+		s << "\"]\n";
+		if (Initial() == state)
+			s << "    \"initial\" -> " << state << '\n';
+		statePrinted = true;
+	};
+	// States without transitions matter, too, if there is something to tell about them
+	if (IsFinal(state) || Initial() == state || tags.find(state) != tags.end())
+		printState();
+
 	// Display each destination state
 	for (auto rit = row.begin(), rie = row.end(); rit != rie; ++rit) {
 		unsigned begin = 0, end = 0;
@@ -137,16 +153,7 @@ void Fsm::DumpState(yostream& s, size_t state) const
 			delimiter = " ";
 		}
 		if (!label.empty()) {
-			if (!statePrinted) {
-				s << "    " << state << "[shape=\"" << (IsFinal(state) ? "double" : "") << "circle\",label=\"" << state;
-				auto ti = tags.find(state);
-				if (ti != tags.end())
-					s << " (tags: " << ti->second << ")";
-				s << "\"]\n";
-				if (Initial() == state)
-					s << "    \"initial\" -> " << state << '\n';
-				statePrinted = true;
-			}
+			printState();
 			s << "    " << state << " -> " << std::distance(row.begin(), rit) << "[label=\"" << label;
 
 			// Display outputs
-- 
2.43.0

