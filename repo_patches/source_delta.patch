From d01e27a778263da4a549648be5e9de8420e479c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:46 +0000
Subject: [PATCH 01/25] fix: recognise a code fence directly after another in
 markdown files

---
 gen/golang/lexer/lexer.go | 1 +
 lexer/lexer.go            | 1 +
 2 files changed, 2 insertions(+)

diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index 038e9ce..f2ce692 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -311,6 +311,7 @@ func loadMd(input []rune) {
 				input[i+j] = ' '
 			}
 			i += 3
+			continue
 		}
 		if i < len(input) {
 			if text {
diff --git a/lexer/lexer.go b/lexer/lexer.go
index 5bb0edd..1618afe 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -146,6 +146,7 @@ func loadMd(input []rune) {
 				input[i+j] = ' '
 			}
 			i += 3
+			continue
 		}
 		if i < len(input) {
 			if text {
-- 
2.43.0


From c41791b615a752fc9029f015499d4bfa0d3c7a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:31 +0000
Subject: [PATCH 02/25] fix: order overlapping character classes by inclusion
 in the lexical automaton

---
 lex/items/event/event.go | 141 +++++++++++++--------------------------
 1 file changed, 45 insertions(+), 96 deletions(-)

diff --git a/lex/items/event/event.go b/lex/items/event/event.go
index eefc68e..b49b971 100644
--- a/lex/items/event/event.go
+++ b/lex/items/event/event.go
@@ -86,9 +86,9 @@ func Subset(a, b ast.LexBase) TriState {
 		case *ast.AnyOf:
 			return toTriState(a1.Set.Subset(b1.Set))
 		case *ast.CharLiteral:
-			return toTriState(a1.Set.Contains(b1.Char()))
+			return toTriState(onlyContains(a1.Set, b1.Char()))
 		case *ast.Not:
-			return toTriState(!a1.Set.Subset(b1.Set))
+			return toTriState(a1.Set.Intersection(b1.Set).Empty())
 		case *ast.UnicodeClass:
 			return toTriState(unicodeClassContains(b1, a1.Set.Elements()...))
 		case *ast.UnicodeSet:
@@ -142,7 +142,7 @@ func Subset(a, b ast.LexBase) TriState {
 		case *ast.CharLiteral:
 			return False
 		case *ast.Not:
-			return False
+			return toTriState(!unicodeClassContainsAny(a1, b1.Set.Elements()...))
 		case *ast.UnicodeClass:
 			return toTriState(a1.Type == b1.Type ||
 				(b1.Type == ast.Letter && (a1.Type == ast.Lowcase || a1.Type == ast.Upcase)))
@@ -161,7 +161,7 @@ func Subset(a, b ast.LexBase) TriState {
 		case *ast.CharLiteral:
 			return False
 		case *ast.Not:
-			return False
+			return toTriState(!unicodeSetContainsAny(a1, b1.Set.Elements()...))
 		case *ast.UnicodeClass:
 			return toTriState(b1.ContainsSet(a1))
 		case *ast.UnicodeSet:
@@ -204,101 +204,27 @@ func noneOf(r rune, rs *runeset.RuneSet) bool {
 	return !rs.Contains(r)
 }
 
-// sort events from most to least specific class
+// sort events from most to least specific class: character literals in
+// ascending order, then the other events, each before the events that it is a
+// subset of.
 func sortEvents(events []ast.LexBase) {
-	sort.Slice(events, func(i, j int) bool {
-		switch e1 := events[i].(type) {
-		case *ast.Any:
-			return false
-		case *ast.AnyOf:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return e1.Set.Subset(e2.Set)
-			case *ast.CharLiteral:
-				return e1.Set.Contains(e2.Char())
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return unicodeClassContains(e2, e1.Set.Elements()...)
-			case *ast.UnicodeSet:
-				return e2.ContainsRunes(e1.Set.Elements()...)
-			default:
-				panic("Invalid")
-			}
-		case *ast.CharLiteral:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return true
-			case *ast.CharLiteral:
-				return e1.Char() < e2.Char()
-			case *ast.Not:
-				return true
-			case *ast.UnicodeClass:
-				return true
-			case *ast.UnicodeSet:
-				return true
-			default:
-				panic("Invalid")
-			}
-		case *ast.Not:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return e1.Set.Subset(e2.Set)
-			case *ast.UnicodeClass:
-				return false
-			case *ast.UnicodeSet:
-				return false
-			default:
-				panic("Invalid")
-			}
-		case *ast.UnicodeClass:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !unicodeClassContains(e1, e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.Type == ast.Letter && (e1.Type == ast.Lowcase || e1.Type == ast.Upcase)
-			case *ast.UnicodeSet:
-				return e2.ContainsClass(e1)
-			default:
-				panic("Invalid")
-			}
-		case *ast.UnicodeSet:
-			switch e2 := events[j].(type) {
-			case *ast.Any:
-				return true
-			case *ast.AnyOf:
-				return false
-			case *ast.CharLiteral:
-				return false
-			case *ast.Not:
-				return !e1.ContainsRunes(e2.Set.Elements()...)
-			case *ast.UnicodeClass:
-				return e2.ContainsSet(e1)
-			case *ast.UnicodeSet:
-				return e2.ContainsSet(e1)
-			default:
-				panic("Invalid")
-			}
-		default:
-			panic("Invalid")
+	sort.SliceStable(events, func(i, j int) bool {
+		ci, iok := events[i].(*ast.CharLiteral)
+		cj, jok := events[j].(*ast.CharLiteral)
+		if iok && jok {
+			return ci.Char() < cj.Char()
 		}
+		return iok && !jok
 	})
+	for i := range events {
+		for j := i + 1; j < len(events); j++ {
+			if Subset(events[j], events[i]) == True && Subset(events[i], events[j]) != True {
+				ev := events[j]
+				copy(events[i+1:j+1], events[i:j])
+				events[i] = ev
+			}
+		}
+	}
 }
 
 func toTriState(b bool) TriState {
@@ -332,6 +258,29 @@ func unicodeClassContains(c *ast.UnicodeClass, rs ...rune) bool {
 	return true
 }
 
+func unicodeClassContainsAny(c *ast.UnicodeClass, rs ...rune) bool {
+	for _, r := range rs {
+		if unicodeClassContains(c, r) {
+			return true
+		}
+	}
+	return false
+}
+
+func unicodeSetContainsAny(s *ast.UnicodeSet, rs ...rune) bool {
+	for _, r := range rs {
+		if s.ContainsRune(r) {
+			return true
+		}
+	}
+	return false
+}
+
+// onlyContains returns true iff r is the one element of rs
+func onlyContains(rs *runeset.RuneSet, r rune) bool {
+	return rs.Contains(r) && len(rs.Elements()) == 1
+}
+
 func fail(items []*item.Item, incomatibleEvents []eventPair) {
 	fmt.Println("Error in lexer events")
 	fmt.Println("  Set:")
-- 
2.43.0


From c489e04cf046e657788375f15231e7dab675e737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 03/25] fix: keep every rule alive when any- and not-sets
 overlap in part

---
 ast/lex.go               |   9 +++
 lex/items/event/event.go | 141 +++++++++++++++++++++++++++++++++------
 2 files changed, 128 insertions(+), 22 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index 6fc4c8d..36a1df8 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -290,6 +290,15 @@ func (n *Not) Lext() int {
 	return n.not.Lext()
 }
 
+// Union returns the set that excludes the characters of both n and n1
+func (n *Not) Union(n1 *Not) *Not {
+	set := runeset.New()
+	for _, r := range append(n.Set.Elements(), n1.Set.Elements()...) {
+		set.Add(r)
+	}
+	return &Not{not: n.not, strLit: n.strLit, Set: set}
+}
+
 func (re *RegExp) String() string {
 	w := new(bytes.Buffer)
 	for _, symbol := range re.Symbols {
diff --git a/lex/items/event/event.go b/lex/items/event/event.go
index b49b971..0574888 100644
--- a/lex/items/event/event.go
+++ b/lex/items/event/event.go
@@ -53,7 +53,7 @@ type eventPair struct {
 // GetOrdered returns the set of unique transition events for items, ordered
 // by the event precedence.
 func GetOrdered(items ...*item.Item) (events []ast.LexBase) {
-	events = getEvents(items...)
+	events = split(getEvents(items...))
 	incompatibleEvents := []eventPair{}
 	for i := 0; i < len(events)-1; i++ {
 		for j := i + 1; j < len(events); j++ {
@@ -72,7 +72,9 @@ func GetOrdered(items ...*item.Item) (events []ast.LexBase) {
 }
 
 // Subset returns True if a is a subset of b, False if a is not a subset of b,
-// and Undefined if the subset relationship is not defined between a and b
+// and Undefined if the subset relationship is not defined between a and b.
+// The characters of a not-set that a unicode class or set contains do not count:
+// they have events of their own, see split.
 func Subset(a, b ast.LexBase) TriState {
 	switch a1 := a.(type) {
 	case *ast.Any:
@@ -142,7 +144,7 @@ func Subset(a, b ast.LexBase) TriState {
 		case *ast.CharLiteral:
 			return False
 		case *ast.Not:
-			return toTriState(!unicodeClassContainsAny(a1, b1.Set.Elements()...))
+			return True
 		case *ast.UnicodeClass:
 			return toTriState(a1.Type == b1.Type ||
 				(b1.Type == ast.Letter && (a1.Type == ast.Lowcase || a1.Type == ast.Upcase)))
@@ -161,7 +163,7 @@ func Subset(a, b ast.LexBase) TriState {
 		case *ast.CharLiteral:
 			return False
 		case *ast.Not:
-			return toTriState(!unicodeSetContainsAny(a1, b1.Set.Elements()...))
+			return True
 		case *ast.UnicodeClass:
 			return toTriState(b1.ContainsSet(a1))
 		case *ast.UnicodeSet:
@@ -227,6 +229,119 @@ func sortEvents(events []ast.LexBase) {
 	}
 }
 
+// split resolves the overlaps of sets that are not subsets of each other: the
+// characters that such any- and not-sets list become events of their own.
+func split(events []ast.LexBase) (res []ast.LexBase) {
+	chars, excl := runeset.New(), (*ast.Not)(nil)
+	for i, a := range events {
+		for _, b := range events[i+1:] {
+			if overlap(a, b) {
+				for _, r := range append(listed(a), listed(b)...) {
+					chars.Add(r)
+				}
+				n1, ok1 := a.(*ast.Not)
+				n2, ok2 := b.(*ast.Not)
+				if ok1 && ok2 {
+					if excl == nil {
+						excl = n1
+					}
+					excl = excl.Union(n1).Union(n2)
+				}
+			}
+		}
+	}
+	for _, ev := range events {
+		if _, ok := ev.(*ast.Not); ok && excl != nil {
+			ev = excl.Union(ev.(*ast.Not))
+		}
+		if ao, ok := ev.(*ast.AnyOf); ok && ao.Set.Subset(chars) {
+			continue
+		}
+		if !contains(res, ev) {
+			res = append(res, ev)
+		}
+	}
+	for _, r := range chars.Elements() {
+		for _, ev := range events {
+			if matches(ev, r) {
+				if cl := charLiteral(r); !contains(res, cl) {
+					res = append(res, cl)
+				}
+				break
+			}
+		}
+	}
+	return
+}
+
+// overlap returns true iff a and b have characters in common and each has
+// characters that the other does not have.
+func overlap(a, b ast.LexBase) bool {
+	both := !finite(a) && !finite(b)
+	onlyA := !finite(a) && finite(b) || excludes(a, b)
+	onlyB := !finite(b) && finite(a) || excludes(b, a)
+	for _, r := range append(listed(a), listed(b)...) {
+		inA, inB := matches(a, r), matches(b, r)
+		both = both || inA && inB
+		onlyA = onlyA || inA && !inB
+		onlyB = onlyB || inB && !inA
+	}
+	return both && onlyA && onlyB
+}
+
+// excludes returns true if a is a not-set and b a unicode class or set
+func excludes(a, b ast.LexBase) bool {
+	if _, ok := a.(*ast.Not); !ok {
+		return false
+	}
+	switch b.(type) {
+	case *ast.UnicodeClass, *ast.UnicodeSet:
+		return true
+	}
+	return false
+}
+
+func finite(ev ast.LexBase) bool {
+	switch ev.(type) {
+	case *ast.AnyOf, *ast.CharLiteral:
+		return true
+	}
+	return false
+}
+
+// listed returns the characters that are written out in ev
+func listed(ev ast.LexBase) []rune {
+	switch e := ev.(type) {
+	case *ast.AnyOf:
+		return e.Set.Elements()
+	case *ast.CharLiteral:
+		return []rune{e.Char()}
+	case *ast.Not:
+		return e.Set.Elements()
+	}
+	return nil
+}
+
+// matches returns true iff r is one of the characters of ev
+func matches(ev ast.LexBase, r rune) bool {
+	return Subset(charLiteral(r), ev) == True
+}
+
+func charLiteral(r rune) *ast.CharLiteral {
+	lit := []rune{'\'', r, '\''}
+	switch r {
+	case '\\', '\'':
+		lit = []rune{'\'', '\\', r, '\''}
+	case '\n':
+		lit = []rune{'\'', '\\', 'n', '\''}
+	case '\r':
+		lit = []rune{'\'', '\\', 'r', '\''}
+	case '\t':
+		lit = []rune{'\'', '\\', 't', '\''}
+	}
+	return ast.NewCharLiteral(nil, lit)
+}
+
 func toTriState(b bool) TriState {
 	if b {
 		return True
@@ -258,24 +373,6 @@ func unicodeClassContains(c *ast.UnicodeClass, rs ...rune) bool {
 	return true
 }
 
-func unicodeClassContainsAny(c *ast.UnicodeClass, rs ...rune) bool {
-	for _, r := range rs {
-		if unicodeClassContains(c, r) {
-			return true
-		}
-	}
-	return false
-}
-
-func unicodeSetContainsAny(s *ast.UnicodeSet, rs ...rune) bool {
-	for _, r := range rs {
-		if s.ContainsRune(r) {
-			return true
-		}
-	}
-	return false
-}
-
 // onlyContains returns true iff r is the one element of rs
 func onlyContains(rs *runeset.RuneSet, r rune) bool {
 	return rs.Contains(r) && len(rs.Elements()) == 1
-- 
2.43.0


From e2e310343efe181dc9bf64852b03e9d1619ac73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:39 +0000
Subject: [PATCH 04/25] fix: compare unicode sets and classes by the characters
 they contain

---
 ast/lex.go | 53 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index 36a1df8..e07763e 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -319,7 +319,7 @@ func (u *UnicodeClass) Equal(other LexBase) bool {
 }
 
 func (u *UnicodeClass) Lext() int {
-	return u.Lext()
+	return u.tok.Lext()
 }
 
 func (*Any) String() string {
@@ -377,9 +377,12 @@ func (sl *StringLit) Value() []rune {
 }
 
 func (u *UnicodeClass) ContainsSet(s *UnicodeSet) bool {
-	for _, rng := range s.Ranges {
-		if !rangeTableInRangeTable(rng.GetRangeTable(), u.GetRangeTable()) {
-			return false
+	incl, excl := s.GetRangeTables()
+	for _, tab := range incl {
+		for _, r := range runes(tab) {
+			if !unicode.In(r, excl...) && !unicode.Is(u.GetRangeTable(), r) {
+				return false
+			}
 		}
 	}
 	return true
@@ -396,7 +399,7 @@ func (u *UnicodeClass) GetRangeTable() *unicode.RangeTable {
 	case Number:
 		return unicode.Number
 	case Space:
-		return unicode.Space
+		return unicode.White_Space
 	}
 	panic("impossible")
 }
@@ -449,6 +452,11 @@ func (u UnicodeRanges) Equal(other UnicodeRanges) bool {
 			return false
 		}
 	}
+	for _, rng := range other {
+		if !u.Contain(rng) {
+			return false
+		}
+	}
 	return true
 }
 
@@ -505,14 +513,29 @@ func rangeTableInRangeTable(a, b *unicode.RangeTable) bool {
 		fmt.Printf("a=%p, b=%p\n", a, b)
 		panic("nil")
 	}
-	for _, rng := range a.R32 {
-		if !unicode.In(rune(rng.Lo), b) || !unicode.In(rune(rng.Hi), b) {
+	for _, r := range runes(a) {
+		if !unicode.Is(b, r) {
 			return false
 		}
 	}
 	return true
 }
 
+// runes returns the runes in tab
+func runes(tab *unicode.RangeTable) (rs []rune) {
+	for _, rng := range tab.R16 {
+		for r := rune(rng.Lo); r <= rune(rng.Hi); r += rune(rng.Stride) {
+			rs = append(rs, r)
+		}
+	}
+	for _, rng := range tab.R32 {
+		for r := rune(rng.Lo); r <= rune(rng.Hi); r += rune(rng.Stride) {
+			rs = append(rs, r)
+		}
+	}
+	return
+}
+
 // GetRangeTable returns the category or property RangeTable of r
 func (u *UnicodeRange) GetRangeTable() *unicode.RangeTable {
 	switch u.Type {
@@ -546,12 +569,7 @@ func (u *UnicodeRange) Subset(sup *UnicodeSet) bool {
 }
 
 func (u *UnicodeSet) ContainsClass(c *UnicodeClass) bool {
-	for _, rng := range u.Ranges {
-		if rng.ContainsClass(c) {
-			return true
-		}
-	}
-	return false
+	return u.ContainsRunes(runes(c.GetRangeTable())...)
 }
 
 func (u *UnicodeSet) ContainsRune(r rune) bool {
@@ -578,9 +596,12 @@ func (u *UnicodeSet) ContainsRangeTable(rngTab *unicode.RangeTable) bool {
 }
 
 func (u *UnicodeSet) ContainsSet(u1 *UnicodeSet) bool {
-	for _, rng := range u1.Ranges {
-		if !u.ContainsRangeTable(rng.GetRangeTable()) {
-			return false
+	incl, excl := u1.GetRangeTables()
+	for _, tab := range incl {
+		for _, r := range runes(tab) {
+			if !unicode.In(r, excl...) && !u.ContainsRune(r) {
+				return false
+			}
 		}
 	}
 	return true
-- 
2.43.0


From 18dd7a572f56b4f886569654a4b772fcb6c44975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:34 +0000
Subject: [PATCH 05/25] fix: keep every pivot of the symbols before the last in
 the BSR set

---
 gen/golang/gll/bsr/bsr.go | 72 +++++++++++++++++++++++------------
 parser/bsr/bsr.go         | 80 +++++++++++++++++++++++++--------------
 2 files changed, 100 insertions(+), 52 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index f80fa28..3177bf0 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -72,7 +72,7 @@ Set contains the set of Binary Subtree Representations (BSR).
 type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
-    stringEntries map[stringKey]*stringBSR
+    stringEntries map[stringKey][]*stringBSR
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -113,7 +113,7 @@ func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
-        stringEntries: make(map[stringKey]*stringBSR),
+        stringEntries: make(map[stringKey][]*stringBSR),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -213,12 +213,7 @@ func (s *Set) GetRoots() (roots []BSR) {
 // GetAllStrings returns all string elements with symbols = str,
 // left extent = lext and right extent = rext
 func (s *Set) GetAllStrings(str symbols.Symbols, lext, rext int) (strs []*stringBSR) {
-    for _, s := range s.stringEntries {
-        if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
-            strs = append(strs, s)
-        }
-    }
-    return
+    return s.stringEntries[getStringKey(str, lext, rext)]
 }
 
 func (s *Set) getNTBSRs() BSRs {
@@ -234,19 +229,20 @@ func (s *Set) getNTBSRs() BSRs {
 
 func (s *Set) getStringBSRs() stringBSRs {
     bsrs := make(stringBSRs, 0, len(s.stringEntries))
-    for _, bsr := range s.stringEntries {
-        bsrs = append(bsrs, bsr)
+    for _, strs := range s.stringEntries {
+        bsrs = append(bsrs, strs...)
     }
     sort.Sort(bsrs)
     return bsrs
 }
 
-func (s *Set) getString(symbols symbols.Symbols, leftExtent, rightExtent int) *stringBSR {
-    // fmt.Printf("Set.getString(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
+// getStrings returns one string BSR for every pivot of symbols
+func (s *Set) getStrings(symbols symbols.Symbols, leftExtent, rightExtent int) []*stringBSR {
+    // fmt.Printf("Set.getStrings(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
 
-    strBsr, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
+    strBsrs, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
     if exist {
-        return strBsr
+        return strBsrs
     }
 
     panic(fmt.Sprintf("Error: no string %s left extent=%d right extent=%d\n",
@@ -259,11 +255,20 @@ func (s *Set) insert(bsr bsr) {
     }
     switch b := bsr.(type) {
     case BSR:
+        if s.slotEntries[b] {
+            return
+        }
         s.slotEntries[b] = true
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
-        s.stringEntries[b.key()] = b
+        key := b.key()
+        for _, b1 := range s.stringEntries[key] {
+            if b1.pivot == b.pivot {
+                return
+            }
+        }
+        s.stringEntries[key] = append(s.stringEntries[key], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
     }
@@ -354,19 +359,23 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
         return b.set.getNTSlot(b.Label.Symbols()[i], b.pivot, b.rightExtent)
     }
 
-    // Walk to pos i from the right
-    symbols := b.Label.Symbols()[:b.Label.Pos()-1]
-    str := b.set.getString(symbols, b.leftExtent, b.pivot)
-    for len(symbols) > i+1 && len(symbols) > 2 {
+    // Walk to pos i from the right. The symbols left of a symbol can have more
+    // than one pivot, and so symbol i can end at more than one position.
+    symbols, rexts := b.Label.Symbols()[:b.Label.Pos()-1], []int{b.pivot}
+    for len(symbols) > i+1 {
+        rexts = b.set.getPivots(symbols, b.leftExtent, rexts)
         symbols = symbols[:len(symbols)-1]
-        str = b.set.getString(symbols, str.leftExtent, str.pivot)
     }
 
     bsrs := []BSR{}
-    if i == 0 {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.leftExtent, str.pivot)
-    } else {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.pivot, str.rightExtent)
+    for _, rext := range rexts {
+        lexts := []int{b.leftExtent}
+        if i > 0 {
+            lexts = b.set.getPivots(symbols, b.leftExtent, []int{rext})
+        }
+        for _, lext := range lexts {
+            bsrs = append(bsrs, b.set.getNTSlot(symbols[i], lext, rext)...)
+        }
     }
 
     // fmt.Println(bsrs)
@@ -374,6 +383,21 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
     return bsrs
 }
 
+// getPivots returns the distinct pivots of symbols with left extent lext and
+// one of the right extents, rexts.
+func (s *Set) getPivots(symbols symbols.Symbols, lext int, rexts []int) (pivots []int) {
+    done := map[int]bool{}
+    for _, rext := range rexts {
+        for _, str := range s.getStrings(symbols, lext, rext) {
+            if !done[str.pivot] {
+                done[str.pivot] = true
+                pivots = append(pivots, str.pivot)
+            }
+        }
+    }
+    return
+}
+
 // GetTChildI returns the terminal symbol at position i in b.
 // GetTChildI panics if symbol i is not a valid terminal
 func (b BSR) GetTChildI(i int) *token.Token {
diff --git a/parser/bsr/bsr.go b/parser/bsr/bsr.go
index 4f8dd16..ec44849 100644
--- a/parser/bsr/bsr.go
+++ b/parser/bsr/bsr.go
@@ -34,7 +34,7 @@ Set contains the set of Binary Subtree Representations (BSR).
 type Set struct {
     slotEntries   map[BSR]bool
     ntSlotEntries map[ntSlot][]BSR
-    stringEntries map[stringKey]*stringBSR
+    stringEntries map[stringKey][]*stringBSR
     rightExtent   int
     lex           *lexer.Lexer
 
@@ -75,7 +75,7 @@ func New(startSymbol symbols.NT, l *lexer.Lexer) *Set {
     return &Set{
         slotEntries:   make(map[BSR]bool),
         ntSlotEntries: make(map[ntSlot][]BSR),
-        stringEntries: make(map[stringKey]*stringBSR),
+        stringEntries: make(map[stringKey][]*stringBSR),
         rightExtent:   0,
         lex:           l,
         startSym:      startSymbol,
@@ -175,12 +175,7 @@ func (s *Set) GetRoots() (roots []BSR) {
 // GetAllStrings returns all string elements with symbols = str,
 // left extent = lext and right extent = rext
 func (s *Set) GetAllStrings(str symbols.Symbols, lext, rext int) (strs []*stringBSR) {
-    for _, s := range s.stringEntries {
-        if s.Symbols.Equal(str) && s.leftExtent == lext && s.rightExtent == rext {
-            strs = append(strs, s)
-        }
-    }
-    return
+    return s.stringEntries[getStringKey(str, lext, rext)]
 }
 
 func (s *Set) getNTBSRs() BSRs {
@@ -196,19 +191,20 @@ func (s *Set) getNTBSRs() BSRs {
 
 func (s *Set) getStringBSRs() stringBSRs {
     bsrs := make(stringBSRs, 0, len(s.stringEntries))
-    for _, bsr := range s.stringEntries {
-        bsrs = append(bsrs, bsr)
+    for _, strs := range s.stringEntries {
+        bsrs = append(bsrs, strs...)
     }
     sort.Sort(bsrs)
     return bsrs
 }
 
-func (s *Set) getString(symbols symbols.Symbols, leftExtent, rightExtent int) *stringBSR {
-    // fmt.Printf("Set.getString(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
+// getStrings returns one string BSR for every pivot of symbols
+func (s *Set) getStrings(symbols symbols.Symbols, leftExtent, rightExtent int) []*stringBSR {
+    // fmt.Printf("Set.getStrings(%s,%d,%d)\n", symbols, leftExtent, rightExtent)
 
-    strBsr, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
+    strBsrs, exist := s.stringEntries[getStringKey(symbols, leftExtent, rightExtent)]
     if exist {
-        return strBsr
+        return strBsrs
     }
 
     panic(fmt.Sprintf("Error: no string %s left extent=%d right extent=%d\n",
@@ -221,11 +217,20 @@ func (s *Set) insert(bsr bsr) {
     }
     switch b := bsr.(type) {
     case BSR:
+        if s.slotEntries[b] {
+            return
+        }
         s.slotEntries[b] = true
         nt := ntSlot{b.Label.Head(), b.leftExtent, b.rightExtent}
         s.ntSlotEntries[nt] = append(s.ntSlotEntries[nt], b)
     case *stringBSR:
-        s.stringEntries[b.key()] = b
+        key := b.key()
+        for _, b1 := range s.stringEntries[key] {
+            if b1.pivot == b.pivot {
+                return
+            }
+        }
+        s.stringEntries[key] = append(s.stringEntries[key], b)
     default:
         panic(fmt.Sprintf("Invalid type %T", bsr))
     }
@@ -316,19 +321,23 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
         return b.set.getNTSlot(b.Label.Symbols()[i], b.pivot, b.rightExtent)
     }
 
-    // Walk to pos i from the right
-    symbols := b.Label.Symbols()[:b.Label.Pos()-1]
-    str := b.set.getString(symbols, b.leftExtent, b.pivot)
-    for len(symbols) > i+1 && len(symbols) > 2 {
+    // Walk to pos i from the right. The symbols left of a symbol can have more
+    // than one pivot, and so symbol i can end at more than one position.
+    symbols, rexts := b.Label.Symbols()[:b.Label.Pos()-1], []int{b.pivot}
+    for len(symbols) > i+1 {
+        rexts = b.set.getPivots(symbols, b.leftExtent, rexts)
         symbols = symbols[:len(symbols)-1]
-        str = b.set.getString(symbols, str.leftExtent, str.pivot)
     }
 
     bsrs := []BSR{}
-    if i == 0 {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.leftExtent, str.pivot)
-    } else {
-        bsrs = b.set.getNTSlot(b.Label.Symbols()[i], str.pivot, str.rightExtent)
+    for _, rext := range rexts {
+        lexts := []int{b.leftExtent}
+        if i > 0 {
+            lexts = b.set.getPivots(symbols, b.leftExtent, []int{rext})
+        }
+        for _, lext := range lexts {
+            bsrs = append(bsrs, b.set.getNTSlot(symbols[i], lext, rext)...)
+        }
     }
 
     // fmt.Println(bsrs)
@@ -336,6 +345,21 @@ func (b BSR) GetNTChildrenI(i int) []BSR {
     return bsrs
 }
 
+// getPivots returns the distinct pivots of symbols with left extent lext and
+// one of the right extents, rexts.
+func (s *Set) getPivots(symbols symbols.Symbols, lext int, rexts []int) (pivots []int) {
+    done := map[int]bool{}
+    for _, rext := range rexts {
+        for _, str := range s.getStrings(symbols, lext, rext) {
+            if !done[str.pivot] {
+                done[str.pivot] = true
+                pivots = append(pivots, str.pivot)
+            }
+        }
+    }
+    return
+}
+
 // GetTChildI returns the terminal symbol at position i in b.
 // GetTChildI panics if symbol i is not a valid terminal
 func (b BSR) GetTChildI(i int) *token.Token {
@@ -360,12 +384,12 @@ func (b BSR) GetTChildI(i int) *token.Token {
     return b.set.lex.Tokens[lext]
 }
 
-// LeftExtent returns the left extent of the BSR
+// LeftExtent returns the left extent of the BSR in the stream of tokens
 func (b BSR) LeftExtent() int {
     return b.leftExtent
 }
 
-// RightExtent returns the right extent of the BSR
+// RightExtent returns the right extent of the BSR in the stream of tokens
 func (b BSR) RightExtent() int {
     return b.rightExtent
 }
@@ -627,8 +651,8 @@ func (bld *bldSPPF) mkPN(nt symbols.NT, body symbols.Symbols, pos int,
 		LeftChild:  nil,
 		RightChild: nil,
 	}
-	if _, exist := bld.pNodes[pn.Label()]; exist {
-		panic("must not happen")
+	if pn1, exist := bld.pNodes[pn.Label()]; exist {
+		return pn1
 	}
 	bld.pNodes[pn.Label()] = pn
 
-- 
2.43.0


From 62cb728be1433d3f57d87627dab4ee35921292e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:35 +0000
Subject: [PATCH 06/25] fix: do not overwrite the slot table when an SPPF is
 built

---
 gen/golang/gll/bsr/bsr.go | 5 ++---
 parser/bsr/bsr.go         | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 3177bf0..598dbdc 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -648,11 +648,10 @@ func (pf *Set) ToSPPF() *sppf.SymbolNode {
                     in.Lext, in.Lext, in.Rext))
             } else {
                 // for each (α,i,k, j)∈Υ { mkPN(X ::=α·δ,i,k, j,G) } } } }
-                alpha, delta := in.Body[:in.Pos], in.Body[in.Pos:]
+                alpha := in.Body[:in.Pos]
                 for _, str := range pf.GetAllStrings(alpha, in.Lext, in.Rext) {
-                    body := append(str.Symbols, delta...)
                     in.Children = append(in.Children,
-                        bld.mkPN(in.NT, body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
+                        bld.mkPN(in.NT, in.Body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
                 }
             }
         }
diff --git a/parser/bsr/bsr.go b/parser/bsr/bsr.go
index ec44849..72c6aa8 100644
--- a/parser/bsr/bsr.go
+++ b/parser/bsr/bsr.go
@@ -610,11 +610,10 @@ func (pf *Set) ToSPPF() *sppf.SymbolNode {
                     in.Lext, in.Lext, in.Rext))
             } else {
                 // for each (α,i,k, j)∈Υ { mkPN(X ::=α·δ,i,k, j,G) } } } }
-                alpha, delta := in.Body[:in.Pos], in.Body[in.Pos:]
+                alpha := in.Body[:in.Pos]
                 for _, str := range pf.GetAllStrings(alpha, in.Lext, in.Rext) {
-                    body := append(str.Symbols, delta...)
                     in.Children = append(in.Children,
-                        bld.mkPN(in.NT, body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
+                        bld.mkPN(in.NT, in.Body, in.Pos, str.leftExtent, str.pivot, str.rightExtent))
                 }
             }
         }
-- 
2.43.0


From 7fd02d7723ce6c8fd8603dfd37c9c687f38194c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:00 +0000
Subject: [PATCH 07/25] fix: report an error when only the end of the input was
 missing

---
 gen/golang/gll/parser.go | 28 ++++++++++++++++++++++++++++
 parser/parser.go         | 28 ++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/gen/golang/gll/parser.go b/gen/golang/gll/parser.go
index 8f66094..b18cf95 100644
--- a/gen/golang/gll/parser.go
+++ b/gen/golang/gll/parser.go
@@ -171,6 +171,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 		}
 	}
 	if !p.bsrSet.Contain(symbols.NT_{{.StartSymbol}}, 0, m) {
+		p.endOfInputError()
 		p.sortParseErrors()
 		return nil, p.parseErrors
 	}
@@ -456,6 +457,33 @@ func (p *parser) parseError(slot slot.Label, i int, expected map[token.Type]stri
 	p.parseErrors = append(p.parseErrors, pe)
 }
 
+/*
+endOfInputError adds an error if the parse got no further than the end of a
+proper prefix of the input that is derived by the start symbol. The token there 
+may follow the start symbol in another context, so that no production failed, 
+but here only the end of the input can follow.
+*/
+func (p *parser) endOfInputError() {
+	var slot slot.Label
+	end := -1
+	for _, b := range p.bsrSet.GetAll() {
+		if b.Label.Head() == symbols.NT_{{.StartSymbol}} && b.LeftExtent() == 0 {
+			if j := b.RightExtent(); j > end || j == end && b.Label < slot {
+				slot, end = b.Label, j
+			}
+		}
+	}
+	if end < 0 {
+		return
+	}
+	for _, pe := range p.parseErrors {
+		if pe.cI >= end {
+			return
+		}
+	}
+	p.parseError(slot, end, map[token.Type]string{token.EOF: token.EOF.ID()})
+}
+
 func (p *parser) sortParseErrors() {
 	sort.Slice(p.parseErrors,
 		func(i, j int) bool {
diff --git a/parser/parser.go b/parser/parser.go
index 676f0f3..512738d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1566,6 +1566,7 @@ func (p *parser) parse() (*bsr.Set, []*Error) {
 		}
 	}
 	if !p.bsrSet.Contain(symbols.NT_GoGLL, 0, m) {
+		p.endOfInputError()
 		p.sortParseErrors()
 		return nil, p.parseErrors
 	}
@@ -12192,6 +12193,33 @@ func (p *parser) parseError(slot slot.Label, i int, expected map[token.Type]stri
 	p.parseErrors = append(p.parseErrors, pe)
 }
 
+/*
+endOfInputError adds an error if the parse got no further than the end of a
+proper prefix of the input that is derived by the start symbol. The token there
+may follow the start symbol in another context, so that no production failed,
+but here only the end of the input can follow.
+*/
+func (p *parser) endOfInputError() {
+	var slot slot.Label
+	end := -1
+	for _, b := range p.bsrSet.GetAll() {
+		if b.Label.Head() == symbols.NT_GoGLL && b.LeftExtent() == 0 {
+			if j := b.RightExtent(); j > end || j == end && b.Label < slot {
+				slot, end = b.Label, j
+			}
+		}
+	}
+	if end < 0 {
+		return
+	}
+	for _, pe := range p.parseErrors {
+		if pe.cI >= end {
+			return
+		}
+	}
+	p.parseError(slot, end, map[token.Type]string{token.EOF: token.EOF.ID()})
+}
+
 func (p *parser) sortParseErrors() {
 	sort.Slice(p.parseErrors,
 		func(i, j int) bool {
-- 
2.43.0


From 1054b0969c8870a7a6d7ccb20251eb9d04744458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:59 +0000
Subject: [PATCH 08/25] fix: list nested ambiguity and end on cyclic forests

---
 gen/golang/gll/bsr/bsr.go | 17 +++++++++++++----
 parser/bsr/bsr.go         | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/gen/golang/gll/bsr/bsr.go b/gen/golang/gll/bsr/bsr.go
index 598dbdc..c0952ad 100644
--- a/gen/golang/gll/bsr/bsr.go
+++ b/gen/golang/gll/bsr/bsr.go
@@ -550,14 +550,21 @@ func (s *Set) ReportAmbiguous() {
     }
     for i, b := range s.GetRoots() {
         fmt.Println("In root", i)
-        if !s.report(b) {
+        if !s.report(b, map[BSR]bool{}) {
             fmt.Println("No ambiguous BSRs")
         }
     }
 }
 
-// report return true iff at least one ambigous BSR was found
-func (s *Set) report(b BSR) bool {
+// report return true iff at least one ambigous BSR was found in b or below it.
+// done contains the BSRs that were reported already. The BSRs of a cyclic
+// grammar can be their own descendants.
+func (s *Set) report(b BSR, done map[BSR]bool) bool {
+    if done[b] {
+        return false
+    }
+    done[b] = true
+
     ambiguous := false
     for i, sym := range b.Label.Symbols() {
         ln, col := s.getLineColumn(b.LeftExtent())
@@ -572,7 +579,9 @@ func (s *Set) report(b BSR) bool {
                 }
             }
             for _, b1 := range b.GetNTChildrenI(i) {
-                s.report(b1)
+                if s.report(b1, done) {
+                    ambiguous = true
+                }
             }
         }
     }
diff --git a/parser/bsr/bsr.go b/parser/bsr/bsr.go
index 72c6aa8..232d0dd 100644
--- a/parser/bsr/bsr.go
+++ b/parser/bsr/bsr.go
@@ -512,14 +512,21 @@ func (s *Set) ReportAmbiguous() {
     }
     for i, b := range s.GetRoots() {
         fmt.Println("In root", i)
-        if !s.report(b) {
+        if !s.report(b, map[BSR]bool{}) {
             fmt.Println("No ambiguous BSRs")
         }
     }
 }
 
-// report return true iff at least one ambigous BSR was found
-func (s *Set) report(b BSR) bool {
+// report return true iff at least one ambigous BSR was found in b or below it.
+// done contains the BSRs that were reported already. The BSRs of a cyclic
+// grammar can be their own descendants.
+func (s *Set) report(b BSR, done map[BSR]bool) bool {
+    if done[b] {
+        return false
+    }
+    done[b] = true
+
     ambiguous := false
     for i, sym := range b.Label.Symbols() {
         ln, col := s.getLineColumn(b.LeftExtent())
@@ -534,7 +541,9 @@ func (s *Set) report(b BSR) bool {
                 }
             }
             for _, b1 := range b.GetNTChildrenI(i) {
-                s.report(b1)
+                if s.report(b1, done) {
+                    ambiguous = true
+                }
             }
         }
     }
-- 
2.43.0


From f8ce3c1ad3210979c55db5f7063b32f1b50e0987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:34 +0000
Subject: [PATCH 09/25] fix: call the constructor of an empty alternate in
 LR(1) parsers, instead of generating ast.nil

---
 gen/golang/lr1/ast/ast.go                 |  2 +-
 gen/golang/lr1/parser/productionstable.go | 15 +++++----------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/gen/golang/lr1/ast/ast.go b/gen/golang/lr1/ast/ast.go
index 71aa95c..069846a 100644
--- a/gen/golang/lr1/ast/ast.go
+++ b/gen/golang/lr1/ast/ast.go
@@ -137,7 +137,7 @@ import(
 
 {{range $bprod := .BasicProds}}{{$bp := $bprod}}
 // {{$bp.Comment}}
-func {{$bp.ID}}({{range $i, $p := $bp.Params}}{{if ne $i 0}}, {{end}}p{{$i}}{{end}} interface{})(interface{}, error){
+func {{$bp.ID}}({{range $i, $p := $bp.Params}}{{if ne $i 0}}, {{end}}p{{$i}}{{end}}{{if $bp.Params}} interface{}{{end}})(interface{}, error){
     fmt.Println("ast.{{$bprod.ID}} is unimplemented")
     return nil, nil
 }
diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index b9a27aa..344b644 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -50,16 +50,11 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		data.ProdTab[i].String = fmt.Sprintf("`%s`", prod.String())
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
-		if len(prod.Body.Symbols) == 0 {
-			data.ProdTab[i].NumSymbols = 0
-			data.ProdTab[i].ReduceFunc = fmt.Sprintf("nil, nil")
-		} else {
-			data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
-			data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
-				prod.Head,
-				prod.Alternate,
-				getParamIDs(len(prod.Body.Symbols)))
-		}
+		data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
+		data.ProdTab[i].ReduceFunc = fmt.Sprintf("%s%d(%s)",
+			prod.Head,
+			prod.Alternate,
+			getParamIDs(len(prod.Body.Symbols)))
 	}
 
 	return data
-- 
2.43.0


From 02e677e159e9ec40f2d77e63ca56d7a8a37e0f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 10/25] fix: LR(1) closure propagates contexts found late

---
 lr1/states/state.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lr1/states/state.go b/lr1/states/state.go
index 25d9a13..4a025b4 100644
--- a/lr1/states/state.go
+++ b/lr1/states/state.go
@@ -77,7 +77,10 @@ func (this *State) Closure() *State {
 					this.Add(newCfgGrp)
 					cgList = append(cgList, newCfgGrp)
 				} else {
-					oldCfgGrp.AddContext(newCfgGrp.ContextSet.List...)
+					if oldCfgGrp.ContextSet.Add(newCfgGrp.ContextSet.List...) {
+						// The items derived from oldCfgGrp get the new context too
+						cgList = append(cgList, oldCfgGrp)
+					}
 				}
 			}
 		}
-- 
2.43.0


From 4f34936d2ad8e93b50e7aa1f30e4e86ab824d2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:25 +0000
Subject: [PATCH 11/25] fix: Pager's LR(1) construction lost contexts and
 merged incompatible states

---
 lr1/pgm/states.go | 112 ++++++++++------------------------------------
 1 file changed, 24 insertions(+), 88 deletions(-)

diff --git a/lr1/pgm/states.go b/lr1/pgm/states.go
index 8856541..f3908bd 100644
--- a/lr1/pgm/states.go
+++ b/lr1/pgm/states.go
@@ -13,23 +13,20 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 	}
 	s.NewState0(symbols, lr0items, first, states.NewConfigGroup(lr0items.List[0], "$"))
 	symSuccessors := symbolsuccessors.NewSymbolSuccessors()
-	for si := 0; si < len(s.List); si++ {
+	for todo := []*states.State{s.List[0]}; len(todo) > 0; todo = todo[1:] {
+		state := todo[0]
 		st_trans := make([]states.Transition, 0, 4)
-		for _, trans := range s.List[si].Next().List() {
+		for _, trans := range state.Next().List() {
 			merged := false
 			for _, snum := range symSuccessors[trans.Sym] {
 				if weaklyCompatibleStates(s.List[snum], trans.State) {
 					merged = true
-					newStates := mergeStates(s.List[snum], trans.State)
-					for sym, states := range newStates {
-						for _, state := range states {
-							s.List = append(s.List, state)
-							state.Number = len(s.List) - 1
-							symSuccessors[sym] = append(symSuccessors[sym], state.Number)
-						}
+					if mergeStates(s.List[snum], trans.State) {
+						// The successors of s.List[snum] get the new context too
+						todo = append(todo, s.List[snum])
 					}
-
 					st_trans = append(st_trans, states.Transition{Sym: trans.Sym, State: s.List[snum]})
+					break
 				}
 			}
 			if !merged {
@@ -37,68 +34,27 @@ func States(symbols []string, lr0items *items.Items, first *first.First) *states
 				s.List = append(s.List, trans.State)
 				trans.State.Number = len(s.List) - 1
 				symSuccessors[trans.Sym] = append(symSuccessors[trans.Sym], trans.State.Number)
+				todo = append(todo, trans.State)
 			}
 		}
-		s.List[si].Transitions = states.NewTransitionsList(st_trans, symbols)
+		state.Transitions = states.NewTransitionsList(st_trans, symbols)
 	}
 	// s.GenActions()
 	return s
 }
 
-func makeContext(from *states.ConfigGroupSet, to *states.ConfigGroupSet) *states.ConfigGroupSet {
-	newNucleus := to.CloneFromCore()
-	for _, cfg := range from.List() {
-		if toCfg := newNucleus.GetGroupByCore(cfg.Item.NextItem); toCfg != nil {
-			toCfg.AddContext(cfg.ContextSet.List...)
-		}
-	}
-	return newNucleus
-}
-
-func mergeStates(this *states.State, that *states.State) (newStates map[string][]*states.State) {
-	oldNucleus := this.Nucleus.Clone()
-	mergeCfgGrpSet(this.Nucleus, that.Nucleus)
-	this.NonNucleus = states.NewConfigGroupSet()
-	this.Closure()
-	cfgDiff := this.Nucleus.ContextDiff(oldNucleus)
-	cfgDiff.Add(this.NonNucleus.List()...)
-	return propagateContext(this, cfgDiff)
-}
-
 /*
-The context of all config groups in that, which give context to the nucleus group of this,
-is merged into the nucleus of this.
+Merge the context of that into this. Return true iff this changed.
 */
-func mergeContext(this *states.State, thatNucleus *states.ConfigGroupSet) {
-	for _, grp := range thatNucleus.List() {
-		this.Nucleus.GetGroup(grp).AddContext(grp.ContextSet.List...)
-	}
-	this.NonNucleus = states.NewConfigGroupSet()
-	this.Closure()
-}
-
-/*
-Return a map of (symbol:*states.State) of newly generated states. Each new state has minus the same number as the one it replaces.
-For example: The existing set has number 10 and the new state -10. The caller of this function must resolve
-the state numbers as other sets may still have valid transitions to the original.
-*/
-func propagateContext(this *states.State, expandedNucleusCfGrps *states.ConfigGroupSet) (newStates map[string][]*states.State) {
-	newStates = make(map[string][]*states.State)
-	if this.Transitions == nil {
-		return
-	}
-	for _, t := range this.Transitions.List() {
-		sym, nextState := t.Sym, t.State
-		newNucleus := makeContext(expandedNucleusCfGrps, nextState.Nucleus)
-		if weaklyCompatibleCfgGrpSet(nextState.Nucleus, newNucleus) {
-			mergeContext(nextState, newNucleus)
-		} else {
-			newState := this.NextSymbol(sym)
-			newState.Number = -nextState.Number
-			this.Transitions.Replace(sym, newState)
-			newStates[sym] = append(newStates[sym], newState)
+func mergeStates(this *states.State, that *states.State) (changed bool) {
+	for _, grp := range that.Nucleus.List() {
+		if this.Nucleus.GetGroup(grp).ContextSet.Add(grp.ContextSet.List...) {
+			changed = true
 		}
 	}
+	if changed {
+		this.Closure()
+	}
 	return
 }
 
@@ -106,28 +62,15 @@ func weaklyCompatibleStates(this *states.State, that *states.State) bool {
 	return weaklyCompatibleCfgGrpSet(this.Nucleus, that.Nucleus)
 }
 
-func mergeCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) {
-	for _, cfGrp := range this.List() {
-		if diffContext := that.GetGroup(cfGrp).ContextSet.Diff(cfGrp.ContextSet); diffContext.Size() > 0 {
-			cfGrp.ContextSet.Add(diffContext.List...)
-		}
-	}
-}
-
 func weaklyCompatibleCfgGrpSet(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
 	if !this.CoreEqual(that) {
 		return false
 	}
-	if contextMutuallyDisjunct(this, that) {
-		return true
-	}
-	return !contextInternallyDisjunct(this) || !contextInternallyDisjunct(that)
-}
-
-func contextMutuallyDisjunct(this *states.ConfigGroupSet, that *states.ConfigGroupSet) bool {
-	for _, thisCfgGrp := range this.List() {
-		for _, thatCfgGrp := range that.List() {
-			if thisCfgGrp.HashKey() != thatCfgGrp.HashKey() && len(thisCfgGrp.ContextSet.Intersection(thatCfgGrp.ContextSet)) > 0 {
+	for i, thisGrp1 := range this.List() {
+		for _, thisGrp2 := range this.List()[i+1:] {
+			thatGrp1, thatGrp2 := that.GetGroup(thisGrp1), that.GetGroup(thisGrp2)
+			if (intersect(thisGrp1, thatGrp2) || intersect(thisGrp2, thatGrp1)) &&
+				!intersect(thisGrp1, thisGrp2) && !intersect(thatGrp1, thatGrp2) {
 				return false
 			}
 		}
@@ -135,13 +78,6 @@ func contextMutuallyDisjunct(this *states.ConfigGroupSet, that *states.ConfigGro
 	return true
 }
 
-func contextInternallyDisjunct(this *states.ConfigGroupSet) bool {
-	for i := 0; i < len(this.List())-1; i++ {
-		for j := i + 1; j < len(this.List()); j++ {
-			if len(this.List()[i].ContextSet.Intersection(this.List()[j].ContextSet)) > 0 {
-				return false
-			}
-		}
-	}
-	return true
+func intersect(this *states.ConfigGroup, that *states.ConfigGroup) bool {
+	return len(this.ContextSet.Intersection(that.ContextSet)) > 0
 }
-- 
2.43.0


From 4cf8f2ef28c712d295636c7565073d732e20e0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:05 +0000
Subject: [PATCH 12/25] fix: panic on LR(1) conflicts with accept

---
 lr1/action/action.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lr1/action/action.go b/lr1/action/action.go
index 3bdc614..c24203c 100644
--- a/lr1/action/action.go
+++ b/lr1/action/action.go
@@ -110,11 +110,13 @@ func (this Shift) Equal(act Action) bool {
 	return false
 }
 
+// Accept is the reduction by production 0
 func (this Accept) ResolveConflict(that Action) Action {
-	if _, ok := that.(Error); ok {
+	switch that.(type) {
+	case Error, Reduce:
 		return this
 	}
-	panic(fmt.Sprintf("Cannot have LR1 conflict with Accept."))
+	panic(fmt.Sprintf("Impossible conflict: Accept/%s", that))
 }
 
 func (Error) ResolveConflict(that Action) Action {
@@ -138,7 +140,7 @@ func (this Shift) ResolveConflict(that Action) Action {
 func (this Reduce) ResolveConflict(that Action) Action {
 	switch that := that.(type) {
 	case Accept:
-		panic(fmt.Sprintf("Impossible conflict: Shift(%d)/Accept", int(this)))
+		return that
 	case Shift:
 		return that
 	case Error:
-- 
2.43.0


From 64c72e5e3b4038c127886877175f1ac7f29bd1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:05 +0000
Subject: [PATCH 13/25] fix: say that LR(1) conflicts were resolved when they
 were

---
 lr1/gen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lr1/gen.go b/lr1/gen.go
index ac75b73..092cd01 100644
--- a/lr1/gen.go
+++ b/lr1/gen.go
@@ -52,12 +52,12 @@ func Gen(g *ast.GoGLL) ([]*basicprod.Production, *states.States, action.Actions)
 
 func handleConflicts(conflicts [][]*action.Conflict, states *states.States) {
 	if numConflicts(conflicts) > 0 {
-		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt", numConflicts(conflicts))
+		fmt.Printf("%d LR(1) conflicts. See LR1_conflicts.txt\n", numConflicts(conflicts))
 		writeConflicts(conflicts)
 		if !*cfg.AutoResolveLRConf {
-			fmt.Println("LR(1) conflicts were automatically resolved")
 			os.Exit(1)
 		}
+		fmt.Println("LR(1) conflicts were automatically resolved")
 	}
 }
 
-- 
2.43.0


From 7ded2f8f166917efe12db7be083f0bf983ca9e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:38 +0000
Subject: [PATCH 14/25] fix: end on repetition of lexical bodies that match the
 empty string

---
 lex/item/item.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lex/item/item.go b/lex/item/item.go
index b18b9e3..ccfd6f4 100644
--- a/lex/item/item.go
+++ b/lex/item/item.go
@@ -100,7 +100,7 @@ func (i *Item) Clone() *Item {
 func (i *Item) Emoves() []*Item {
 	// fmt.Println("Emoves:", i)
 
-	after := []*Item{i}
+	after, done := []*Item{i}, []*Item{}
 	for changed := true; changed; {
 		// fmt.Println(" Again")
 		before := after
@@ -109,6 +109,14 @@ func (i *Item) Emoves() []*Item {
 		for _, item := range before {
 			// fmt.Println("  ", item)
 
+			// A repeated bracket that matches the empty string leads back to itself
+			if item.atBeforeBracket() || item.atEndOfBracket() {
+				if contains(done, item) {
+					continue
+				}
+				done = append(done, item)
+			}
+
 			switch {
 			case item.atBeforeBracket():
 				for j := range item.Symbol().(*ast.LexBracket).Alternates {
@@ -139,6 +147,15 @@ func (i *Item) Emoves() []*Item {
 }
 
 // Equal is true if i and other have the same rule and position.
+func contains(items []*Item, item *Item) bool {
+	for _, item1 := range items {
+		if item.Equal(item1) {
+			return true
+		}
+	}
+	return false
+}
+
 func (i *Item) Equal(other *Item) bool {
 	return i.Rule.ID() == other.Rule.ID() &&
 		i.Pos.Equal(other.Pos)
-- 
2.43.0


From 12b92461123e048f7dd180dc056055831d50b6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:56 +0000
Subject: [PATCH 15/25] fix: do not take a larger lexer state for the first one

The first item set contained the same item more than once, so that it was
found equal to larger sets of which it is a part.
---
 lex/items/items.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lex/items/items.go b/lex/items/items.go
index 8b6add6..c028c2f 100644
--- a/lex/items/items.go
+++ b/lex/items/items.go
@@ -216,7 +216,7 @@ func (sets *Sets) Sets() []*Set {
 func set0(g *ast.GoGLL) *Set {
 	s0 := &Set{}
 	for _, rule := range g.LexRules {
-		s0.add(item.New(rule).Emoves()...)
+		s0.Add(item.New(rule).Emoves()...)
 	}
 	for _, sl := range g.StringLiterals {
 		s0.add(item.New(stringLitToRule(sl)))
-- 
2.43.0


From 695569cae8c62ebabba4eca28b0636bc3948441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 16/25] fix: keep lexical rules apart that start with the same
 rule

The body of a referenced rule was shared, so that rules which append to it
overwrote each other's symbols.
---
 ast/build.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ast/build.go b/ast/build.go
index 4395f06..8c08279 100644
--- a/ast/build.go
+++ b/ast/build.go
@@ -197,7 +197,8 @@ func (bld *builder) getLexRuleBody(tokid *token.Token) []LexSymbol {
 	if lexRule == nil {
 		bld.fail(fmt.Errorf("token %s not defined yet", tokid.LiteralString()), tokid.Lext())
 	}
-	return lexRule.RegExp.Symbols
+	// The caller appends to the body, which must not change the rule
+	return append([]LexSymbol{}, lexRule.RegExp.Symbols...)
 }
 
 // LexSymbol
-- 
2.43.0


From 362a640f81fd12938950bfaff5daec3c9ba97de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:25 +0000
Subject: [PATCH 17/25] fix: reject string literals with any white space

The lexer skips all white space between tokens, not only blanks, tabs and
line ends.
---
 ast/lex.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index e07763e..663c789 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -353,8 +353,7 @@ func (n *Not) String() string {
 
 func (sl *StringLit) ContainsWhiteSpace() bool {
 	for _, r := range sl.tok.LiteralStripEscape() {
-		switch r {
-		case ' ', '\t', '\n', '\r':
+		if unicode.IsSpace(r) {
 			return true
 		}
 	}
-- 
2.43.0


From 39b07f8d3fed5e9f47746cc75d806f27d432179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:57 +0000
Subject: [PATCH 18/25] fix: write the symbols, First and Follow reports in one
 order

The reports listed the elements of sets in the order of map iteration, so
that they differed from run to run.
---
 ast/ast.go                     | 2 +-
 gen/firstfollow/firstfollow.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index 0368357..8fcf0de 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -90,7 +90,7 @@ func (g *GoGLL) GetSyntaxRule(nt string) *SyntaxRule {
 }
 
 func (g *GoGLL) GetSymbols() []string {
-	return append(g.Terminals.Elements(), g.NonTerminals.Elements()...)
+	return append(g.Terminals.ElementsSorted(), g.NonTerminals.ElementsSorted()...)
 }
 
 func (g *GoGLL) StartSymbol() string {
diff --git a/gen/firstfollow/firstfollow.go b/gen/firstfollow/firstfollow.go
index 312bdf1..4fafd98 100644
--- a/gen/firstfollow/firstfollow.go
+++ b/gen/firstfollow/firstfollow.go
@@ -49,21 +49,21 @@ func genFirstSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
 
 func genFirstSet(w io.Writer, symbol string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "%s: ", symbol)
-	for _, s := range ff.FirstOfSymbol(symbol).Elements() {
+	for _, s := range ff.FirstOfSymbol(symbol).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
 }
 
 func genFollowSets(w io.Writer, g *ast.GoGLL, ff *frstflw.FF) {
-	for _, s := range g.NonTerminals.Elements() {
+	for _, s := range g.NonTerminals.ElementsSorted() {
 		genFollowSet(w, s, ff)
 	}
 }
 
 func genFollowSet(w io.Writer, nt string, ff *frstflw.FF) {
 	fmt.Fprintf(w, "Follow(%s): ", nt)
-	for _, s := range ff.Follow(nt).Elements() {
+	for _, s := range ff.Follow(nt).ElementsSorted() {
 		fmt.Fprintf(w, `%s `, s)
 	}
 	fmt.Fprintln(w)
-- 
2.43.0


From 75e41fb6a5f89a10ea79d6d36bfd193d91bbc1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 19/25] fix: LiteralStripEscape: \n is a newline, a backslash
 at the end is kept

\n was replaced by a carriage return, and a token that ends in a
backslash panicked with index out of range.
---
 gen/golang/token/token.go | 4 ++--
 token/token.go            | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/gen/golang/token/token.go b/gen/golang/token/token.go
index 473db7e..013c87e 100644
--- a/gen/golang/token/token.go
+++ b/gen/golang/token/token.go
@@ -148,7 +148,7 @@ func (t *Token) LiteralStripEscape() []rune {
 	lit := t.Literal()
 	strip := make([]rune, 0, len(lit))
 	for i := 0; i < len(lit); i++ {
-		if lit[i] == '\\' {
+		if lit[i] == '\\' && i+1 < len(lit) {
 			i++
 			switch lit[i] {
 			case 't':
@@ -156,7 +156,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
diff --git a/token/token.go b/token/token.go
index f20e796..6239bb0 100755
--- a/token/token.go
+++ b/token/token.go
@@ -49,7 +49,7 @@ func (t *Token) GetInput() []rune {
     return t.input
 }
 
-// Lext returns the left extent of t
+// Lext returns the left extent of t in the input stream of runes
 func (t *Token) Lext() int {
     return t.lext
 }
@@ -69,7 +69,7 @@ func (t *Token) LiteralStripEscape() []rune {
 	lit := t.Literal()
 	strip := make([]rune, 0, len(lit))
 	for i := 0; i < len(lit); i++ {
-		if lit[i] == '\\' {
+		if lit[i] == '\\' && i+1 < len(lit) {
 			i++
 			switch lit[i] {
 			case 't':
@@ -77,7 +77,7 @@ func (t *Token) LiteralStripEscape() []rune {
 			case 'r':
 				strip = append(strip, '\r')
 			case 'n':
-				strip = append(strip, '\r')
+				strip = append(strip, '\n')
 			default:
 				strip = append(strip, lit[i])
 			}
@@ -93,7 +93,7 @@ func (t *Token) LiteralStringStripEscape() string {
 	return string(t.LiteralStripEscape())
 }
 
-// Rext returns the right extent of t in the input
+// Rext returns the right extent of t in the input stream of runes
 func (t *Token) Rext() int {
     return t.rext
 }
-- 
2.43.0


From c931f8e88a5d7a6d9c5e2ced2a07604ae29e85ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 20/25] fix: write character literals so that the generated
 lexer compiles

A literal of a raw newline, NUL or byte order mark, and the literal '\',
which denotes a backslash, were copied into the generated code as they
were, where Go does not allow them.
---
 ast/lex.go                | 3 ++-
 gen/golang/lexer/lexer.go | 7 ++-----
 util/runeset/runeset.go   | 9 +++++++--
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/ast/lex.go b/ast/lex.go
index 663c789..4ab053f 100644
--- a/ast/lex.go
+++ b/ast/lex.go
@@ -192,7 +192,8 @@ func NewCharLiteral(tok *token.Token, literal []rune) *CharLiteral {
 }
 
 func (c *CharLiteral) Char() rune {
-	if c.Literal[1] == '\\' {
+	// '\' is a backslash, too
+	if c.Literal[1] == '\\' && len(c.Literal) > 3 {
 		switch c.Literal[2] {
 		case '\'':
 			return '\''
diff --git a/gen/golang/lexer/lexer.go b/gen/golang/lexer/lexer.go
index f2ce692..f3217df 100644
--- a/gen/golang/lexer/lexer.go
+++ b/gen/golang/lexer/lexer.go
@@ -27,6 +27,7 @@ import (
 	"github.com/goccmack/gogll/v3/cfg"
 	"github.com/goccmack/gogll/v3/lex/items"
 	"github.com/goccmack/gogll/v3/symbols"
+	"github.com/goccmack/gogll/v3/util/runeset"
 	"github.com/goccmack/goutil/ioutil"
 	"github.com/goccmack/goutil/stringset"
 )
@@ -107,11 +108,7 @@ func getCondition(event ast.LexBase) string {
 	case *ast.AnyOf:
 		return fmt.Sprintf("any(r, %s)", e.Set)
 	case *ast.CharLiteral:
-		cstr := string(e.Literal)
-		if cstr == "'''" {
-			return "r == '\\''"
-		}
-		return fmt.Sprintf("r == %s", cstr)
+		return fmt.Sprintf("r == '%s'", runeset.Escape(e.Char()))
 	case *ast.Not:
 		return fmt.Sprintf("not(r, %s)", e.Set)
 	case *ast.UnicodeClass:
diff --git a/util/runeset/runeset.go b/util/runeset/runeset.go
index 2716478..17fc496 100644
--- a/util/runeset/runeset.go
+++ b/util/runeset/runeset.go
@@ -103,14 +103,19 @@ func (rs *RuneSet) String() string {
 		if i > 0 {
 			fmt.Fprint(w, ",")
 		}
-		fmt.Fprintf(w, "'%s'", escape(r))
+		fmt.Fprintf(w, "'%s'", Escape(r))
 	}
 	fmt.Fprint(w, "}")
 	return w.String()
 }
 
-func escape(r rune) string {
+// Escape returns r as it is written in a Go rune literal
+func Escape(r rune) string {
 	switch r {
+	case 0:
+		return "\\x00"
+	case '\uFEFF':
+		return "\\ufeff"
 	case '\\':
 		return "\\\\"
 	case '\'':
-- 
2.43.0


From 6a6255587d0b2481fdbb2df234f24c892f2a066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:40 +0000
Subject: [PATCH 21/25] fix: escape literals wherever the generated parser has
 them

A backquote ended the raw string of the LR(1) productions table, */ the
comments of the action table, and NUL and byte order mark are not allowed
in Go source at all.
---
 gen/golang/gll/codex.go                   | 5 +++--
 gen/golang/gll/testselect.go              | 2 +-
 gen/golang/lr1/ast/ast.go                 | 5 +++--
 gen/golang/lr1/parser/actionrow.go        | 7 ++++---
 gen/golang/lr1/parser/productionstable.go | 3 ++-
 gen/golang/utils/utils.go                 | 7 ++++++-
 6 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/gen/golang/gll/codex.go b/gen/golang/gll/codex.go
index 491a554..27e4e56 100644
--- a/gen/golang/gll/codex.go
+++ b/gen/golang/gll/codex.go
@@ -19,6 +19,7 @@ import (
 	"text/template"
 
 	"github.com/goccmack/gogll/v3/ast"
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/gslot"
 )
 
@@ -61,7 +62,7 @@ func (g *gen) getAltData(nt string, alt *ast.SyntaxAlternate, altI int) *AltData
 	d := &AltData{
 		NT:         nt,
 		AltLabel:   L.Label(),
-		AltComment: L.String(),
+		AltComment: utils.Escape(L.String()),
 		Empty:      alt.Empty(),
 	}
 	if !alt.Empty() {
@@ -86,7 +87,7 @@ func (g *gen) getSlotData(nt string, altI int, symbol string, pos int) *SlotData
 		AltLabel:  gslot.NewLabel(nt, altI, 0, g.gs, g.ff).Label(),
 		PreLabel:  preLabel.Label(),
 		PostLabel: postLabel.Label(),
-		Comment:   postLabel.String(),
+		Comment:   utils.Escape(postLabel.String()),
 		Head:      nt,
 	}
 	sd.IsNT = g.g.NonTerminals.Contain(symbol)
diff --git a/gen/golang/gll/testselect.go b/gen/golang/gll/testselect.go
index 7ff36c8..09404ca 100644
--- a/gen/golang/gll/testselect.go
+++ b/gen/golang/gll/testselect.go
@@ -94,7 +94,7 @@ func (g *gen) getTSData() (data []*TSData) {
 
 func (g *gen) getSlotTSData(l gslot.Label) *TSData {
 	data := &TSData{
-		Label:   l.String(),
+		Label:   utils.Escape(l.String()),
 		Symbols: g.getFirst(l),
 		// Conditions: g.getSlotTSConditions(s),
 	}
diff --git a/gen/golang/lr1/ast/ast.go b/gen/golang/lr1/ast/ast.go
index 069846a..5d5e2eb 100644
--- a/gen/golang/lr1/ast/ast.go
+++ b/gen/golang/lr1/ast/ast.go
@@ -26,6 +26,7 @@ import (
 
 	"github.com/goccmack/gogll/v3/ast"
 	"github.com/goccmack/gogll/v3/cfg"
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/lr1/basicprod"
 	"github.com/goccmack/goutil/ioutil"
 )
@@ -85,9 +86,9 @@ func getBasicProds(bprods []*basicprod.Production) (prods []*BasicProd) {
 
 func getBasicProd(prod *basicprod.Production) *BasicProd {
 	return &BasicProd{
-		Comment: fmt.Sprintf("%s : %s ;",
+		Comment: utils.Escape(fmt.Sprintf("%s : %s ;",
 			prod.Head,
-			strings.Join(prod.Body.GetSymbols(), " ")),
+			strings.Join(prod.Body.GetSymbols(), " "))),
 
 		ID: fmt.Sprintf("%s%d", prod.Head, prod.Alternate),
 
diff --git a/gen/golang/lr1/parser/actionrow.go b/gen/golang/lr1/parser/actionrow.go
index f320ecc..f443755 100644
--- a/gen/golang/lr1/parser/actionrow.go
+++ b/gen/golang/lr1/parser/actionrow.go
@@ -19,6 +19,7 @@ import (
 	"fmt"
 	"text/template"
 
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/lr1/action"
 	"github.com/goccmack/gogll/v3/lr1/basicprod"
 	"github.com/goccmack/gogll/v3/lr1/states"
@@ -55,11 +56,11 @@ func getActionRowData(prods []*basicprod.Production, state *states.State, action
 			var actStr string
 			switch act := actions[sym.Literal()].(type) {
 			case action.Accept:
-				actStr = fmt.Sprintf("accept(true),\t\t/* %s */", sym)
+				actStr = fmt.Sprintf("accept(true),\t\t// %s", utils.Escape(sym.String()))
 			case action.Reduce:
-				actStr = fmt.Sprintf("reduce(%d),\t\t/* %s, reduce: %s */", int(act), sym, prods[int(act)].Head)
+				actStr = fmt.Sprintf("reduce(%d),\t\t// %s, reduce: %s", int(act), utils.Escape(sym.String()), prods[int(act)].Head)
 			case action.Shift:
-				actStr = fmt.Sprintf("shift(%d),\t\t/* %s */", int(act), sym)
+				actStr = fmt.Sprintf("shift(%d),\t\t// %s", int(act), utils.Escape(sym.String()))
 			default:
 				panic(fmt.Sprintf("Unknown action type: %T", act))
 			}
diff --git a/gen/golang/lr1/parser/productionstable.go b/gen/golang/lr1/parser/productionstable.go
index 344b644..71b8abf 100644
--- a/gen/golang/lr1/parser/productionstable.go
+++ b/gen/golang/lr1/parser/productionstable.go
@@ -22,6 +22,7 @@ import (
 	"text/template"
 
 	"github.com/goccmack/gogll/v3/cfg"
+	"github.com/goccmack/gogll/v3/gen/golang/utils"
 	"github.com/goccmack/gogll/v3/lr1/basicprod"
 	"github.com/goccmack/gogll/v3/lr1/states"
 	"github.com/goccmack/gogll/v3/symbols"
@@ -47,7 +48,7 @@ func getProdsTab(pkg string, prods []*basicprod.Production, states *states.State
 		ProdTab: make([]prodTabEntry, len(prods)),
 	}
 	for i, prod := range prods {
-		data.ProdTab[i].String = fmt.Sprintf("`%s`", prod.String())
+		data.ProdTab[i].String = fmt.Sprintf("\"%s\"", utils.Escape(prod.String()))
 		data.ProdTab[i].Id = prod.Head
 		data.ProdTab[i].NTType = int(symbols.GetNTType(prod.Head))
 		data.ProdTab[i].NumSymbols = len(prod.Body.Symbols)
diff --git a/gen/golang/utils/utils.go b/gen/golang/utils/utils.go
index 0885381..cb04dfc 100644
--- a/gen/golang/utils/utils.go
+++ b/gen/golang/utils/utils.go
@@ -18,7 +18,8 @@ func EscapeAll(ss ...string) (ess []string) {
 	return
 }
 
-// EscapeRune returns r escaped if in set: "\t\r\n\\
+// EscapeRune returns r escaped if in set: "\t\r\n\\, or if Go source may not
+// contain r
 func EscapeRune(r rune) string {
 	switch r {
 	case '"':
@@ -31,6 +32,10 @@ func EscapeRune(r rune) string {
 		return "\\n"
 	case '\t':
 		return "\\t"
+	case 0:
+		return "\\x00"
+	case '\uFEFF':
+		return "\\ufeff"
 	}
 	return string(r)
 }
-- 
2.43.0


From 2987b18ce5f39d671d7a879ae4a6bab59db5b1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:51 +0000
Subject: [PATCH 22/25] fix: regenerate gogll's own lexer

It took a backslash and an escape letter after a single quote for a whole
character literal, without the closing quote.
---
 lexer/lexer.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 1618afe..1e5cadb 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -307,8 +307,8 @@ var accept = []token.Type{
 	token.T_107, 
 	token.T_108, 
 	token.T_109, 
-	token.T_101, 
 	token.Error, 
+	token.T_101, 
 	token.Error, 
 	token.Error, 
 	token.T_1, 
@@ -1016,9 +1016,9 @@ var nextState = []func(r rune) state{
 			return 22 
 		case r == '}':
 			return 23 
-		case unicode.IsUpper(r):
-			return 24 
 		case unicode.IsLower(r):
+			return 24 
+		case unicode.IsUpper(r):
 			return 25 
 		}
 		return nullState
@@ -1231,11 +1231,11 @@ var nextState = []func(r rune) state{
 	func(r rune) state {
 		switch { 
 		case r == '_':
-			return 24 
+			return 33 
 		case unicode.IsLetter(r):
-			return 24 
+			return 33 
 		case unicode.IsNumber(r):
-			return 24 
+			return 33 
 		}
 		return nullState
 	}, 
@@ -1243,11 +1243,11 @@ var nextState = []func(r rune) state{
 	func(r rune) state {
 		switch { 
 		case r == '_':
-			return 33 
+			return 25 
 		case unicode.IsLetter(r):
-			return 33 
+			return 25 
 		case unicode.IsNumber(r):
-			return 33 
+			return 25 
 		}
 		return nullState
 	}, 
@@ -1282,10 +1282,10 @@ var nextState = []func(r rune) state{
 	// Set29
 	func(r rune) state {
 		switch { 
-		case any(r, []rune{'\'','\\','n','r','t'}):
-			return 44 
 		case r == '\'':
 			return 44 
+		case any(r, []rune{'\'','\\','n','r','t'}):
+			return 30 
 		}
 		return nullState
 	}, 
-- 
2.43.0


From 6bbaf9b6bde52f1c54f81cc107701e5a0e628a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 23/25] fix: list the terminals expected where an LR(1) parse
 fails

The parser popped the stack to a state that expects a terminal named error
before it looked up the terminals that could have come instead.
---
 gen/golang/lr1/parser/parser.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/gen/golang/lr1/parser/parser.go b/gen/golang/lr1/parser/parser.go
index dc82045..d86e2dd 100644
--- a/gen/golang/lr1/parser/parser.go
+++ b/gen/golang/lr1/parser/parser.go
@@ -168,14 +168,15 @@ func (P *Parser) Error(err error) (recovered bool, errorAttrib *parseError.Error
 	errorAttrib = &parseError.Error{
 		Err:            err,
 		ErrorToken:     P.nextToken,
-		ErrorSymbols:   P.popNonRecoveryStates(),
 		ExpectedTokens: make([]string, 0, 8),
 	}
+	// The tokens expected where the error is, so before states are popped
 	for t, action := range actionTab[P.stack.top()].actions {
 		if action != nil {
 			errorAttrib.ExpectedTokens = append(errorAttrib.ExpectedTokens, t.ID())
 		}
 	}
+	errorAttrib.ErrorSymbols = P.popNonRecoveryStates()
 
 	if action := actionTab[P.stack.top()].actions[token.Error]; action != nil {
 		P.stack.push(int(action.(shift)), errorAttrib) // action can only be shift
@@ -219,7 +220,7 @@ func (P *Parser) firstRecoveryState() (recoveryState int, canRecover bool) {
 	return
 }
 
-func (P *Parser) newError(err error) error {
+func (P *Parser) newError(err error, expected []string) error {
 	w := new(bytes.Buffer)
 	ln, col := P.nextToken.GetLineColumn()
 	fmt.Fprintf(w, "Error @ line %d col %d tok %s", ln, col, P.nextToken)
@@ -227,11 +228,8 @@ func (P *Parser) newError(err error) error {
 		w.WriteString(err.Error())
 	} else {
 		w.WriteString(", expected one of: ")
-		actRow := actionTab[P.stack.top()]
-		for tok, act := range actRow.actions {
-			if act != nil {
-				fmt.Fprintf(w, "%s ", tok.ID())
-			}
+		for _, tok := range expected {
+			fmt.Fprintf(w, "%s ", tok)
 		}
 	}
 	return errors.New(w.String())
@@ -247,7 +245,7 @@ func (p *Parser) Parse() (res interface{}, err error) {
 		if action == nil {
 			if recovered, errAttrib := p.Error(nil); !recovered {
 				p.nextToken = errAttrib.ErrorToken
-				return nil, p.newError(nil)
+				return nil, p.newError(nil, errAttrib.ExpectedTokens)
 			}
 			if action = actionTab[p.stack.top()].actions[p.nextToken.Type()]; action == nil {
 				panic("Error recovery led to invalid action")
@@ -265,7 +263,7 @@ func (p *Parser) Parse() (res interface{}, err error) {
 			prod := productionsTable[int(act)]
 			attrib, err := prod.ReduceFunc(p.stack.popN(prod.NumSymbols))
 			if err != nil {
-				return nil, p.newError(err)
+				return nil, p.newError(err, nil)
 			} else {
 				p.stack.push(gotoTab[p.stack.top()][prod.NTType], attrib)
 			}
-- 
2.43.0


From 7ef4d5ff3f7621d119a79abeab29b262c2f854d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 24/25] fix: LR(1) errors show the token's type and text

Error.String printed the method value and a slice of runes.
---
 gen/golang/lr1/parser/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/golang/lr1/parser/errors.go b/gen/golang/lr1/parser/errors.go
index 2d42c6d..9ccbf3b 100644
--- a/gen/golang/lr1/parser/errors.go
+++ b/gen/golang/lr1/parser/errors.go
@@ -62,7 +62,7 @@ func (E *Error) String() string {
 	} else {
 		fmt.Fprintf(w, "\n")
 	}
-	fmt.Fprintf(w, "Token: type=%d, lit=%s\n", E.ErrorToken.Type, E.ErrorToken.Literal())
+	fmt.Fprintf(w, "Token: type=%d, lit=%s\n", E.ErrorToken.Type(), E.ErrorToken.LiteralString())
 	ln, col := E.ErrorToken.GetLineColumn()
 	fmt.Fprintf(w, "Pos: offset=%d, line=%d, column=%d\n", E.ErrorToken.Lext(), ln, col)
 	fmt.Fprintf(w, "Expected one of: ")
-- 
2.43.0


From 94afd422524c14b1d8ea26a3b4422054f90d48fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:25 +0000
Subject: [PATCH 25/25] fix: start production of LR(1) grammars clashes with a
 rule G0

---
 lr1/basicprod/basicprod.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lr1/basicprod/basicprod.go b/lr1/basicprod/basicprod.go
index 2c65e85..e461b72 100644
--- a/lr1/basicprod/basicprod.go
+++ b/lr1/basicprod/basicprod.go
@@ -16,7 +16,7 @@ type Production struct {
 func Get(rules []*ast.SyntaxRule) (prods []*Production) {
 	prods = append(prods,
 		&Production{
-			Head: "G0",
+			Head: startHead(rules),
 			Body: &ast.SyntaxAlternate{
 				Symbols: []ast.SyntaxSymbol{rules[0].Head},
 			},
@@ -34,6 +34,19 @@ func Get(rules []*ast.SyntaxRule) (prods []*Production) {
 	return prods
 }
 
+// startHead returns the head of the start production: G0, or a name like it
+// if the grammar has a rule G0.
+func startHead(rules []*ast.SyntaxRule) string {
+	head := "G0"
+	for i := 0; i < len(rules); i++ {
+		if rules[i].Head.ID() == head {
+			head += "_"
+			i = -1
+		}
+	}
+	return head
+}
+
 func (p *Production) String() string {
 	return fmt.Sprintf("%s : %s ;",
 		p.Head,
-- 
2.43.0

