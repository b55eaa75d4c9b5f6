From 34a9ebeff2b2b19db9a706ea336c1b4d0a5c9515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 01/60] fix: do not overwrite pending branches while resolving
 a conflict

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index aa31717..c90b49c 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -938,7 +938,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 
 	for {
 		branches = nextBranches
-		nextBranches = nextBranches[:0]
+		nextBranches = nil
 		tokens = append(tokens, tok)
 		lastSuccess = nil
 
-- 
2.43.0


From 736b3414357e6408e58856b176b00ee29b0e2142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 02/60] fix: do not replay missing lookahead tokens after
 conflict is resolved

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index c90b49c..8323eab 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -742,7 +742,10 @@ func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State)
 		tokens, rules := pc.resolveConflict(ctx, t)
 		r = rules[0]
 		for i := len(tokens) - 1; i >= 1; i-- {
-			pc.tokens.Prepend(tokens[i])
+			// nil means no suitable token for speculative branches, it must be fetched again for actual state
+			if tokens[i] != nil {
+				pc.tokens.Prepend(tokens[i])
+			}
 		}
 		pc.appliedRules.Fill(rules[1:])
 	}
-- 
2.43.0


From 9465300c6e6bc3f72df22d5ccaec5f5b073ea62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:46 +0000
Subject: [PATCH 03/60] fix: do not share fallback rules between states

---
 langdef/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/result.go b/langdef/result.go
index 6158acb..d697857 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -118,7 +118,7 @@ func (se *stateEntry) CopyRules(from *stateEntry) {
 		if k >= 0 {
 			se.Rules[k] = append(se.Rules[k], rs...)
 		} else {
-			se.Rules[k] = rs
+			se.Rules[k] = append([]grammar.Rule(nil), rs...)
 		}
 	}
 }
-- 
2.43.0


From 3f463cb3f5df0e90c7cc55bf63b242fd23776dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:44 +0000
Subject: [PATCH 04/60] fix: do not let repeated variant continue with another
 variant

---
 langdef/chunks.go | 78 +++++++++++++++++++++++++++++++++++++++--------
 langdef/parser.go |  7 ++++-
 langdef/result.go |  8 +++++
 3 files changed, 80 insertions(+), 13 deletions(-)

diff --git a/langdef/chunks.go b/langdef/chunks.go
index f660d21..59dfd6f 100755
--- a/langdef/chunks.go
+++ b/langdef/chunks.go
@@ -36,10 +36,27 @@ func (c *variantChunk) Append(ch chunk) {
 	c.chunks = append(c.chunks, ch)
 }
 
-func (c *variantChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
+func (c *variantChunk) ReentersStart() bool {
+	return false
+}
+
+func (c *variantChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) []int {
+	var endStates []int
 	for _, chunk := range c.chunks {
-		chunk.BuildStates(g, stateIndex, nextIndex)
+		chunkState := stateIndex
+		if chunk.ReentersStart() {
+			// other variants must not be available after the first iteration
+			chunkState, _ = g.AddState()
+		}
+		endStates = append(endStates, chunk.BuildStates(g, chunkState, nextIndex)...)
+		if chunkState != stateIndex {
+			g.States[stateIndex].CopyRules(g.States[chunkState])
+			if chunk.IsOptional() {
+				endStates = append(endStates, chunkState)
+			}
+		}
 	}
+	return endStates
 }
 
 type groupChunk struct {
@@ -80,7 +97,12 @@ func (c *groupChunk) Append(ch chunk) {
 	c.chunks = append(c.chunks, ch)
 }
 
-func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
+// ReentersStart returns true if initial state is entered again when the group is being repeated.
+func (c *groupChunk) ReentersStart() bool {
+	return c.isRepeated || c.chunks[0].ReentersStart()
+}
+
+func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) []int {
 	tailIndex := nextIndex
 	totalChunks := len(c.chunks)
 	needExtraRule := (c.isRepeated && totalChunks > 1)
@@ -98,21 +120,38 @@ func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
 	}
 	states[totalChunks] = tailIndex
 
+	endStates := make([][]int, totalChunks)
 	for i, chunk := range c.chunks {
-		chunk.BuildStates(g, states[i], states[i+1])
+		endStates[i] = chunk.BuildStates(g, states[i], states[i+1])
 	}
 
-	if c.chunks[totalChunks-1].IsOptional() {
-		g.States[states[totalChunks-1]].BypassRule(tailIndex)
-	}
-	for i := totalChunks - 2; i >= 0; i-- {
+	for i := totalChunks - 1; i >= 0; i-- {
+		skipStates := endStates[i]
 		if c.chunks[i].IsOptional() {
-			g.States[states[i]].CopyRules(g.States[states[i+1]])
+			skipStates = append([]int{states[i]}, skipStates...)
+		}
+		for _, index := range skipStates {
+			if i == totalChunks-1 {
+				g.States[index].BypassRule(tailIndex)
+			} else {
+				g.States[index].CopyRules(g.States[states[i+1]])
+			}
 		}
 	}
 	if needExtraRule {
 		g.States[stateIndex].CopyRules(g.States[states[0]])
 	}
+
+	if c.isRepeated {
+		g.States[stateIndex].DropBypassRule(stateIndex)
+		return nil
+	}
+
+	if totalChunks == 1 {
+		return endStates[0]
+	}
+
+	return nil
 }
 
 type eoiChunk struct{}
@@ -125,8 +164,13 @@ func (eoiChunk) IsOptional() bool {
 	return false
 }
 
-func (eoiChunk) BuildStates(g *parseResult, stateIndex, _ int) {
+func (eoiChunk) ReentersStart() bool {
+	return false
+}
+
+func (eoiChunk) BuildStates(g *parseResult, stateIndex, _ int) []int {
 	g.States[stateIndex].AddRule(grammar.FinalState, grammar.SameNode, lexer.EoiTokenType)
+	return nil
 }
 
 type tokenChunk int
@@ -143,8 +187,13 @@ func (c tokenChunk) IsOptional() bool {
 	return false
 }
 
-func (c tokenChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
+func (tokenChunk) ReentersStart() bool {
+	return false
+}
+
+func (c tokenChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) []int {
 	g.States[stateIndex].AddRule(nextIndex, grammar.SameNode, int(c))
+	return nil
 }
 
 type nodeChunk struct {
@@ -164,7 +213,12 @@ func (c *nodeChunk) IsOptional() bool {
 	return false
 }
 
-func (c *nodeChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) {
+func (*nodeChunk) ReentersStart() bool {
+	return false
+}
+
+func (c *nodeChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) []int {
 	firstTokens := c.FirstTokens().ToSlice()
 	g.States[stateIndex].AddRule(nextIndex, c.item.Index, firstTokens...)
+	return nil
 }
diff --git a/langdef/parser.go b/langdef/parser.go
index b9444ea..0bf5b21 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -31,7 +31,12 @@ type nodeIndex map[string]*nodeItem
 type chunk interface {
 	FirstTokens() *ints.Set
 	IsOptional() bool
-	BuildStates(g *parseResult, stateIndex, nextIndex int)
+	// ReentersStart returns true if the initial state of the chunk is also an initial state for the next iteration.
+	ReentersStart() bool
+	// BuildStates adds rules leading from stateIndex to nextIndex.
+	// Returns additional states (except for stateIndex itself) at which the chunk may be finished
+	// without consuming a token, it is up to the outer chunk to add rules for leaving these states.
+	BuildStates(g *parseResult, stateIndex, nextIndex int) []int
 }
 
 type complexChunk interface {
diff --git a/langdef/result.go b/langdef/result.go
index d697857..5ee105d 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -113,6 +113,14 @@ func (se *stateEntry) BypassRule(nextState int) {
 	se.AddRule(nextState, grammar.SameNode, grammar.AnyToken)
 }
 
+// DropBypassRule removes the fallback rule if it leads to given state.
+func (se *stateEntry) DropBypassRule(nextState int) {
+	rs := se.Rules[grammar.AnyToken]
+	if len(rs) != 0 && rs[0].State == nextState {
+		delete(se.Rules, grammar.AnyToken)
+	}
+}
+
 func (se *stateEntry) CopyRules(from *stateEntry) {
 	for k, rs := range from.Rules {
 		if k >= 0 {
-- 
2.43.0


From 339d8d5ad7dd17d7340d672abdc705fdf6cb5752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:10 +0000
Subject: [PATCH 05/60] fix: stop fetching directive and regexp items at the
 end of input

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 0bf5b21..5f45346 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -428,7 +428,7 @@ func (c *parseContext) fetchAll(types []string, e error) ([]*lexer.Token, error)
 			return nil, e
 		}
 
-		if t == nil {
+		if t == nil || isEof(t) {
 			break
 		}
 
-- 
2.43.0


From 0af734d9744623d5d6bb54bd66d3dcd30510032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:13 +0000
Subject: [PATCH 06/60] fix: check each node for left recursion only once

---
 langdef/parser.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 5f45346..4240c1e 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -1031,8 +1031,9 @@ func findRecursions(g *parseResult, e error) error {
 	}
 
 	ntis := ints.NewSet()
+	checked := make(map[int]bool, len(g.Nodes))
 	for i := range g.Nodes {
-		if ntIsRecursive(g, i, ints.NewSet()) {
+		if ntIsRecursive(g, i, ints.NewSet(), checked) {
 			ntis.Add(i)
 		}
 	}
@@ -1044,16 +1045,23 @@ func findRecursions(g *parseResult, e error) error {
 	}
 }
 
-func ntIsRecursive(g *parseResult, index int, visited *ints.Set) bool {
+func ntIsRecursive(g *parseResult, index int, visited *ints.Set, checked map[int]bool) bool {
+	recursive, has := checked[index]
+	if has {
+		return recursive
+	}
+
 	visited.Add(index)
 	st := g.States[g.Nodes[index].FirstState]
 	for _, rs := range st.Rules {
 		for _, r := range rs {
-			if r.Node != grammar.SameNode && (visited.Contains(r.Node) || ntIsRecursive(g, r.Node, visited.Copy())) {
+			if r.Node != grammar.SameNode && (visited.Contains(r.Node) || ntIsRecursive(g, r.Node, visited.Copy(), checked)) {
+				checked[index] = true
 				return true
 			}
 		}
 	}
+	checked[index] = false
 	return false
 }
 
-- 
2.43.0


From 20a79d00bed80d08ee70cdf211b573289acb1657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:16 +0000
Subject: [PATCH 07/60] fix: report a regexp which cannot be used as a part of
 a lexer regexp

---
 langdef/parser.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 4240c1e..e28a639 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -729,6 +729,9 @@ func (c *parseContext) fetchRegexp(e error) (string, error) {
 
 	re := string(contents)
 	_, e = regexp.Compile(re)
+	if e == nil {
+		_, e = regexp.Compile(wrapRegexp(re))
+	}
 	if e != nil {
 		return "", regexpError(tokens[0], e)
 	}
@@ -736,6 +739,11 @@ func (c *parseContext) fetchRegexp(e error) (string, error) {
 	return re, nil
 }
 
+// wrapRegexp returns token regexp the way it is used by lexers.
+func wrapRegexp(re string) string {
+	return "(?s:" + re + ")"
+}
+
 func (c *parseContext) addNode(name string, define bool) *nodeItem {
 	var group *groupChunk = nil
 	if define {
@@ -1084,7 +1092,7 @@ func assignTokenGroups(g *parseResult, e error) error {
 		}
 
 		if (t.Flags & grammar.NoLiteralsToken) == 0 {
-			res[rcnt] = regexp.MustCompile(`(?s:` + t.Re + `)`)
+			res[rcnt] = regexp.MustCompile(wrapRegexp(t.Re))
 		}
 	}
 	rts := ts[:rcnt]
-- 
2.43.0


From 2d0a7b2323db8919a55c7629a559d9b5c0a5164e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 08/60] fix: do not fail when nothing but the end of input is
 expected

---
 lexer/lexer.go   | 2 +-
 parser/parser.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 3d954ae..4a11240 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -159,7 +159,7 @@ func (l *Lexer) Next(q *source.Queue) (*Token, error) {
 // Returns EoI token if queue is empty.
 // Returns EoF token and discards current source if current position is beyond the end of current source.
 func (l *Lexer) NextOf(q *source.Queue, tts TokenTypeSet) (*Token, error) {
-	if tts&l.typeMask == 0 {
+	if tts&l.typeMask == 0 && !q.Eof() {
 		return nil, nil
 	}
 
diff --git a/parser/parser.go b/parser/parser.go
index 8323eab..b190795 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -567,6 +567,10 @@ func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 		}
 	}
 
+	if index < 0 {
+		return EoiToken
+	}
+
 	token := g.Tokens[index]
 	if (token.Flags & grammar.LiteralToken) != 0 {
 		return token.Name
-- 
2.43.0


From e14541e460d133712d4824f2a4efd9a15667583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 09/60] fix: make lexers report error tokens

---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index b190795..3accde4 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -86,7 +86,11 @@ func New(g *grammar.Grammar, opts ...Option) (*Parser, error) {
 
 		lr := &lrs[t.Group]
 		pattern := "(" + t.Re + ")"
-		lr.types = append(lr.types, lexer.TokenType{i, t.Name})
+		tokenType := i
+		if (t.Flags & grammar.ErrorToken) != 0 {
+			tokenType = lexer.ErrorTokenType
+		}
+		lr.types = append(lr.types, lexer.TokenType{tokenType, t.Name})
 		lr.patterns = append(lr.patterns, pattern)
 	}
 
-- 
2.43.0


From d5cf1ea3520ecac75bfc48625376ed5cf4347992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 10/60] fix: leave source queue right after the last consumed
 token

---
 parser/parser.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3accde4..3f9247a 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -524,15 +524,15 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 	}
 
-	if !tokenConsumed && tok.Type() != lexer.EoiTokenType {
-		s := tok.Source()
-		if s != nil {
-			if s != pc.sources.Source() {
-				pc.sources.Prepend(s)
-			}
-			pc.sources.Seek(tok.Pos().Pos())
+	if !tokenConsumed || !pc.fullSource {
+		// there may be unused tokens left after conflict resolution
+		for leftTok, left := pc.tokens.Last(); left; leftTok, left = pc.tokens.Last() {
+			pc.returnToken(leftTok)
 		}
 	}
+	if !tokenConsumed {
+		pc.returnToken(tok)
+	}
 
 	if pc.fullSource && (tok == nil || tok.Type() != lexer.EoiTokenType) {
 		for {
@@ -555,6 +555,19 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 	return pc.lastResult, nil
 }
 
+// returnToken rewinds source queue to the start of fetched but unused token.
+func (pc *ParseContext) returnToken(tok *Token) {
+	s := tok.Source()
+	if s == nil || tok.Type() == lexer.EoiTokenType {
+		return
+	}
+
+	if s != pc.sources.Source() {
+		pc.sources.Prepend(s)
+	}
+	pc.sources.Seek(tok.Pos().Pos())
+}
+
 func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	g := pc.parser.grammar
 	index := 0
-- 
2.43.0


From cc39bc67b92008ff09825b3cbfd17277816a873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 11/60] fix: report invalid hooks requested by a hook layer

---
 parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3f9247a..574e7fc 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -272,7 +272,10 @@ func newParseContext(ctx context.Context, p *Parser, q *source.Queue, hs Hooks)
 
 	for i := len(p.layers) - 1; i >= 0; i-- {
 		hooks := p.layers[i].Init(ctx, result)
-		newHookLayer(p, result, hooks)
+		e = newHookLayer(p, result, hooks)
+		if e != nil {
+			return nil, e
+		}
 	}
 
 	firstToken := lexer.NewToken(grammar.AnyToken, "", nil, q.SourcePos())
-- 
2.43.0


From 107fb594be2bfc9d8fafc191760d5162f5d0d128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:03 +0000
Subject: [PATCH 12/60] fix: do not count predeclared token types twice

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index e28a639..5bc7195 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -244,7 +244,7 @@ func (c *parseContext) Parse(s *source.Source) (*parseResult, error) {
 		return nil, e
 	}
 
-	if len(c.result.Tokens)+len(c.extraTokens) >= grammar.MaxTokenType {
+	if len(c.result.Tokens)+len(c.extraIndex) >= grammar.MaxTokenType {
 		return nil, tokenTypeNumberError(t)
 	}
 
-- 
2.43.0


From 85fed944401d44902d990eef91da158642f7d3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 13/60] fix: keep reserved flag for whitelisted literals

---
 langdef/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 5bc7195..2619e9d 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -465,8 +465,10 @@ func (c *parseContext) addToken(name, re string, flags grammar.TokenFlags) int {
 }
 
 func (c *parseContext) addLiteralToken(name string, flags grammar.TokenFlags) {
-	_, has := c.literalIndex[name]
-	if !has {
+	i, has := c.literalIndex[name]
+	if has {
+		c.literals[i].flags |= flags
+	} else {
 		c.literalIndex[name] = len(c.literals)
 		c.literals = append(c.literals, literalToken{name, flags})
 	}
-- 
2.43.0


From bb2bca5824700b95cfa3f0bbf5adabe75ed415af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 14/60] fix: report reassigned group for token types which are
 not defined yet

---
 langdef/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/langdef/parser.go b/langdef/parser.go
index 2619e9d..9f2084e 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -570,6 +570,10 @@ func (c *parseContext) parseGroupDir() error {
 			c.result.Tokens[i].Group = c.currentGroup
 		} else {
 			i = c.addExtraToken(name)
+			if c.extraTokens[i].group != 0 {
+				return reassignedGroupError(name)
+			}
+
 			c.extraTokens[i].group = c.currentGroup
 		}
 	}
-- 
2.43.0


From 5d11841a88b8e3b817e7c55745090d990e1bcd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:14 +0000
Subject: [PATCH 15/60] fix: do not confuse names with token classes in grammar
 description

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 9f2084e..c7e4a52 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -332,7 +332,7 @@ func (c *parseContext) fetch(types []string, strict bool, e error) (*lexer.Token
 	}
 
 	for _, typ := range types {
-		if token.TypeName() == typ || token.Text() == typ {
+		if token.TypeName() == typ || (token.TypeName() == opTok && token.Text() == typ) {
 			return token, nil
 		}
 	}
-- 
2.43.0


From bd22bab429343887ecfdbf63cfc42637976ed73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 16/60] fix: let \x escape produce any byte

---
 langdef/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index c7e4a52..bdfb2ab 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -404,7 +404,11 @@ func processStringToken(token *lexer.Token) (*lexer.Token, error) {
 				return nil, e
 			}
 
-			result = utf8.AppendRune(result, r)
+			if letter == 'x' {
+				result = append(result, byte(r))
+			} else {
+				result = utf8.AppendRune(result, r)
+			}
 			content = content[entry.hexLen+2:]
 		}
 	}
-- 
2.43.0


From 1434eae0b00677057f79c81a24764db920646687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 17/60] fix: generate valid Go code for grammars containing
 layers

---
 cmd/llxgen/llxgen.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index 64aa7ca..5c0da93 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -109,7 +109,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 		return nil, fmt.Errorf("invalid package name: %s", packageName)
 	}
 	if !re.MatchString(varName) {
-		return nil, fmt.Errorf("invalid variable name: %s", packageName)
+		return nil, fmt.Errorf("invalid variable name: %s", varName)
 	}
 
 	var buffer bytes.Buffer
@@ -126,7 +126,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 	buffer.WriteString("\t},\n")
 
 	if len(gr.Layers) != 0 {
-		buffer.WriteString("\tLayers: []grammar.Layer{\n}")
+		buffer.WriteString("\tLayers: []grammar.Layer{\n")
 		for _, layer := range gr.Layers {
 			buffer.WriteString(fmt.Sprintf("\t\t{Type: %q", layer.Type))
 			if len(layer.Commands) == 0 {
-- 
2.43.0


From 9ecc29e3ba371626a0445b57849fb9612a62a1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 18/60] fix: keep new element when it replaces its previous
 sibling, do not replace tree root

---
 tree/tree.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tree/tree.go b/tree/tree.go
index 3aeeea8..35bdc48 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -159,14 +159,26 @@ func Detach(n Element) {
 }
 
 // Replace replaces old element with new one or simply removes old element if the new one is nil.
+// Does nothing if old element is the tree root.
 func Replace(old, n Element) {
 	if n == nil || old == nil {
 		Detach(old)
 		return
 	}
 
+	if n == old {
+		return
+	}
+
 	pa := old.Parent()
+	if pa == nil {
+		return
+	}
+
 	ne := old.Next()
+	if ne == n {
+		ne = n.Next()
+	}
 	Detach(old)
 	Detach(n)
 	pa.AddChild(n, ne)
-- 
2.43.0


From 66206f17cac8a1a3d0ce620f2df3580c241c0cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 19/60] fix: skip empty nodes when searching for adjacent token
 element

---
 tree/tree.go | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 35bdc48..bf56278 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -99,17 +99,23 @@ func NextTokenElement(n Element) Element {
 		return nil
 	}
 
-	nn := n.Next()
-	for nn == nil {
-		n = n.Parent()
-		if n == nil {
-			return nil
+	for n != nil {
+		for nn := n.Next(); nn != nil; nn = nn.Next() {
+			te := FirstTokenElement(nn)
+			if te != nil {
+				return te
+			}
 		}
 
-		nn = n.Next()
+		p := n.Parent()
+		if p == nil {
+			break
+		}
+
+		n = p
 	}
 
-	return FirstTokenElement(nn)
+	return nil
 }
 
 // PrevTokenElement returns the last token element before given one, if there are any.
@@ -119,17 +125,23 @@ func PrevTokenElement(n Element) Element {
 		return nil
 	}
 
-	nn := n.Prev()
-	for nn == nil {
-		n = n.Parent()
-		if n == nil {
-			return nil
+	for n != nil {
+		for nn := n.Prev(); nn != nil; nn = nn.Prev() {
+			te := LastTokenElement(nn)
+			if te != nil {
+				return te
+			}
 		}
 
-		nn = n.Prev()
+		p := n.Parent()
+		if p == nil {
+			break
+		}
+
+		n = p
 	}
 
-	return LastTokenElement(nn)
+	return nil
 }
 
 // Children returns child elements (if there are any) or nil if given element is not a node.
-- 
2.43.0


From 0c17d38a1aeef32636625a188ea37c50d7f4b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 20/60] fix: do not overwrite source content when adding up
 indentation

---
 parser/layers/indent/indent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index aad3122..b5a1b18 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -285,7 +285,7 @@ func (ls *layerState) adjustIndent(content []byte) state {
 	} else { // fetching multiple space tokens in a row, just in case...
 		tmp := make([]byte, len(ls.currentIndent), len(ls.currentIndent)+len(content))
 		copy(tmp, ls.currentIndent) // avoid spoiling source file
-		ls.currentIndent = append(ls.currentIndent, content...)
+		ls.currentIndent = append(tmp, content...)
 	}
 
 	currentLen := len(ls.currentIndent)
-- 
2.43.0


From 05e9507c454f1c788d41bb6de506f3969021036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:30 +0000
Subject: [PATCH 21/60] fix: do not emit dedent tokens again on repeated end of
 input

---
 parser/layers/indent/indent.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index b5a1b18..bf71287 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -339,6 +339,7 @@ func (ls *layerState) handleEoi(tok *parser.Token) ([]*parser.Token, error) {
 
 			result = append(result, dedent)
 		}
+		ls.indentStack = nil
 	}
 
 	result = append(result, ls.pad()...)
-- 
2.43.0


From 77a71941e167ae0a6bf82cda92878e01d473a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 22/60] fix: avoid overflow when skipping source content

---
 source/source.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/source.go b/source/source.go
index 52d45d9..3b9c4f5 100755
--- a/source/source.go
+++ b/source/source.go
@@ -308,9 +308,10 @@ func (q *Queue) Skip(size int) {
 		return
 	}
 
-	q.pos += size
-	if q.pos >= q.source.Len() {
+	if size >= q.source.Len()-q.pos {
 		q.pos = q.source.Len()
+	} else {
+		q.pos += size
 	}
 }
 
-- 
2.43.0


From afe733f5d947af1487cd28407b45efb2d2b0acf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 23/60] fix: allow nil source for EoF token

---
 lexer/token.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lexer/token.go b/lexer/token.go
index 2eb1aea..41f7c77 100755
--- a/lexer/token.go
+++ b/lexer/token.go
@@ -92,7 +92,11 @@ const (
 // EofToken creates a token of EofTokenType.
 // s may be nil.
 func EofToken(s *source.Source) *Token {
-	return &Token{tokenType: EofTokenType, typeName: EofTokenName, pos: source.NewPos(s, s.Len())}
+	var pos source.Pos
+	if s != nil {
+		pos = source.NewPos(s, s.Len())
+	}
+	return &Token{tokenType: EofTokenType, typeName: EofTokenName, pos: pos}
 }
 
 // EoiToken creates a token of EoiTokenType.
-- 
2.43.0


From f5325bd985dbc60ba2723369563a8efac6888605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 24/60] fix: add missing layer name to error message

---
 parser/layers/common/errors.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/common/errors.go b/parser/layers/common/errors.go
index 62a211c..a1f7d3d 100644
--- a/parser/layers/common/errors.go
+++ b/parser/layers/common/errors.go
@@ -36,7 +36,7 @@ func MakeMissingCommandError(layer, command string) *llx.Error {
 
 func MakeNumberOfArgumentsError(layer, command string, expected, got int) *llx.Error {
 	return llx.FormatError(NumberOfArgumentsError,
-		"wrong number of arguments for %q command for %q layer: expecting %d, got %d", command, expected, got)
+		"wrong number of arguments for %q command for %q layer: expecting %d, got %d", command, layer, expected, got)
 }
 
 func MakeInvalidArgumentError(layer, command, arg, reason string) *llx.Error {
-- 
2.43.0


From aac916071a67304266e1e01adbe18125323469f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:09 +0000
Subject: [PATCH 25/60] fix: do not accept special token types as spaces in
 indent layer

---
 parser/layers/indent/indent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index bf71287..d73f01f 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -394,7 +394,7 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 
 			for _, ttn := range command.Arguments {
 				tt, valid := p.TokenType(ttn)
-				if !valid {
+				if !valid || tt < 0 {
 					return nil, common.MakeUnknownTokenTypeError(layerName, command.Command, ttn)
 				}
 
-- 
2.43.0


From ba9e65ff3ada4187cee3b31563e76478f2eccf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:12 +0000
Subject: [PATCH 26/60] fix: report unknown commands of indent layer

---
 parser/layers/indent/indent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index d73f01f..7ecf60f 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -426,6 +426,9 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 			if prevType != "" {
 				return nil, common.MakeCommandAlreadyUsedError(layerName, command.Command)
 			}
+
+		default:
+			return nil, common.MakeUnknownCommandError(layerName, command.Command)
 		}
 	}
 
-- 
2.43.0


From 7c51d0869f2635b6aeb2e54dbdfb53fc7b614a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 27/60] fix: make token positions safe for concurrent use

---
 source/source.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/source/source.go b/source/source.go
index 3b9c4f5..cbb3208 100755
--- a/source/source.go
+++ b/source/source.go
@@ -3,6 +3,7 @@ package source
 
 import (
 	"bytes"
+	"sync/atomic"
 	"unicode/utf8"
 
 	"github.com/ava12/llx/internal/queue"
@@ -13,7 +14,7 @@ type Source struct {
 	name          string
 	content       []byte
 	lineStarts    []int
-	prevLineIndex int
+	prevLineIndex atomic.Int64 // a hint only, the same source may be used by different goroutines
 }
 
 // New creates new source.
@@ -21,7 +22,8 @@ type Source struct {
 // Content should be a valid UTF-8 encoded text, lines should be separated by "\n" rune.
 // Content should not be modified.
 func New(name string, content []byte) *Source {
-	s := &Source{name: name, content: content, prevLineIndex: -1}
+	s := &Source{name: name, content: content}
+	s.prevLineIndex.Store(-1)
 	lineCnt := bytes.Count(content, []byte("\n")) + 1
 	s.lineStarts = make([]int, lineCnt)
 	s.lineStarts[0] = 0
@@ -102,14 +104,15 @@ func (s *Source) Pos(line, col int) int {
 }
 
 func (s *Source) findLineIndex(pos int) int {
-	if s.prevLineIndex >= 0 && s.lineStarts[s.prevLineIndex] <= pos {
-		lineIndex := s.prevLineIndex
+	prevLineIndex := int(s.prevLineIndex.Load())
+	if prevLineIndex >= 0 && s.lineStarts[prevLineIndex] <= pos {
+		lineIndex := prevLineIndex
 		last := len(s.lineStarts) - 1
 		for lineIndex <= last && s.lineStarts[lineIndex] <= pos {
 			lineIndex++
 		}
 		lineIndex--
-		s.prevLineIndex = lineIndex
+		s.prevLineIndex.Store(int64(lineIndex))
 		return lineIndex
 	}
 
@@ -117,9 +120,9 @@ func (s *Source) findLineIndex(pos int) int {
 	leftIndex := 0
 	rightIndex := len(s.lineStarts) - 1
 	index := 0
-	if s.prevLineIndex >= 0 {
-		lineStart = s.lineStarts[s.prevLineIndex]
-		rightIndex = s.prevLineIndex
+	if prevLineIndex >= 0 {
+		lineStart = s.lineStarts[prevLineIndex]
+		rightIndex = prevLineIndex
 	}
 	for leftIndex < rightIndex {
 		index = (leftIndex + rightIndex + 1) >> 1
@@ -135,7 +138,7 @@ func (s *Source) findLineIndex(pos int) int {
 			index = rightIndex
 		}
 	}
-	s.prevLineIndex = index
+	s.prevLineIndex.Store(int64(index))
 	return index
 }
 
-- 
2.43.0


From 4f712f9687bab33554747a98888c470c933bcb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 28/60] fix: do not drop finished branches when no token is
 fetched for the others

---
 parser/parser.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 574e7fc..e6666e3 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -975,7 +975,12 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 			for !q.IsEmpty() {
 				b, _ = q.First()
 				if b.NodeStack.IsEmpty() {
-					lastSuccess = b
+					if tok == nil {
+						// nothing is fetched yet, other branches do not have any advantage
+						nextBranches = append(nextBranches, b)
+					} else {
+						lastSuccess = b
+					}
 					continue
 				}
 
-- 
2.43.0


From 204018c6b6b91ba9c907e3356d9e53dd0b0897f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 29/60] fix: name an expected token for a state having
 ambiguous rules only

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e6666e3..0926069 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -573,7 +573,7 @@ func (pc *ParseContext) returnToken(tok *Token) {
 
 func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	g := pc.parser.grammar
-	index := 0
+	index := -1
 	if s.HighRule > s.LowRule {
 		index = g.Rules[s.LowRule].Token
 		if index < 0 && s.HighRule > s.LowRule+1 {
@@ -582,7 +582,7 @@ func (pc *ParseContext) getExpectedToken(s grammar.State) string {
 	}
 	if s.HighMultiRule > s.LowMultiRule {
 		i := g.MultiRules[s.LowMultiRule].Token
-		if i < index {
+		if index < 0 || i < index {
 			index = i
 		}
 	}
-- 
2.43.0


From db32e3b5db2f46e73a58c8f398c89314a5b2d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 30/60] fix: do not drop finished branches when a side token is
 fetched

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 0926069..9b47b17 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -975,8 +975,8 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 			for !q.IsEmpty() {
 				b, _ = q.First()
 				if b.NodeStack.IsEmpty() {
-					if tok == nil {
-						// nothing is fetched yet, other branches do not have any advantage
+					if tok == nil || pc.isSideToken(tok) {
+						// no suitable token is fetched yet, other branches do not have any advantage
 						nextBranches = append(nextBranches, b)
 					} else {
 						lastSuccess = b
-- 
2.43.0


From aa0902d74bb8f95d6e88298f7602b3858e374092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:26 +0000
Subject: [PATCH 31/60] fix: do not fetch unused token twice when full source
 is parsed

---
 parser/parser.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9b47b17..6f555b9 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -527,15 +527,15 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 	}
 
-	if !tokenConsumed || !pc.fullSource {
+	if !tokenConsumed {
+		pc.tokens.Prepend(tok)
+	}
+	if !pc.fullSource {
 		// there may be unused tokens left after conflict resolution
 		for leftTok, left := pc.tokens.Last(); left; leftTok, left = pc.tokens.Last() {
 			pc.returnToken(leftTok)
 		}
 	}
-	if !tokenConsumed {
-		pc.returnToken(tok)
-	}
 
 	if pc.fullSource && (tok == nil || tok.Type() != lexer.EoiTokenType) {
 		for {
-- 
2.43.0


From 71acdbc36ae44d62033b5fd9798c1b882b4a2acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 32/60] fix: keep nested hook result when the next nested node
 is not hooked

---
 parser/hooks.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/hooks.go b/parser/hooks.go
index fa65640..419fa38 100644
--- a/parser/hooks.go
+++ b/parser/hooks.go
@@ -49,7 +49,9 @@ func (dhi *defaultHookInstance) NewNode(node string, token *Token) error {
 }
 
 func (dhi *defaultHookInstance) HandleNode(node string, result any) error {
-	dhi.result = result
+	if result != nil {
+		dhi.result = result
+	}
 	return nil
 }
 
-- 
2.43.0


From 71395eee77a91d6cba38e13127e1c6c79df6375e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 33/60] fix: do not skip a lexer having error types only when
 any token type is requested

---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 4a11240..1637421 100755
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -159,7 +159,7 @@ func (l *Lexer) Next(q *source.Queue) (*Token, error) {
 // Returns EoI token if queue is empty.
 // Returns EoF token and discards current source if current position is beyond the end of current source.
 func (l *Lexer) NextOf(q *source.Queue, tts TokenTypeSet) (*Token, error) {
-	if tts&l.typeMask == 0 && !q.Eof() {
+	if tts&l.typeMask == 0 && tts != AllTokenTypes && !q.Eof() {
 		return nil, nil
 	}
 
-- 
2.43.0


From bb57c4dbc54c30c99f740af80b17b03322f0023a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 34/60] fix: allow line feeds in single-quoted literals of
 grammar descriptions as documented

---
 langdef/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index bdfb2ab..172c426 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -170,7 +170,7 @@ func init() {
 	}
 
 	re := regexp.MustCompile(
-		`^(?:\s+|#[^\n]*|` +
+		`^(?s:\s+|#[^\n]*|` +
 			`((?:"(?:[^\\"]|\\.)*")|(?:'.*?'))|` +
 			`([a-zA-Z_][a-zA-Z_0-9-]*)|` +
 			`(![a-z]+)|` +
-- 
2.43.0


From 8bb51d96c502c1cdc2860c4b9a1083c2a359cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:02 +0000
Subject: [PATCH 35/60] fix: do not ignore an invalid literal given as the
 first argument of a layer command

---
 langdef/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 172c426..435d505 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -647,7 +647,10 @@ func (c *parseContext) parseLayerDef(t *lexer.Token) error {
 			return e
 		}
 
-		token, _ = c.fetchOne(rBraceTok, false, e)
+		token, e = c.fetchOne(rBraceTok, false, nil)
+		if e != nil {
+			return e
+		}
 		if token != nil {
 			layer.Commands = append(layer.Commands, command)
 			continue
-- 
2.43.0


From a8343780fb293e54310b165f33ff7f33d2401389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:06 +0000
Subject: [PATCH 36/60] fix: report position of an unexpected end of grammar
 description

---
 langdef/parser.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index 435d505..cc27625 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -337,15 +337,11 @@ func (c *parseContext) fetch(types []string, strict bool, e error) (*lexer.Token
 		}
 	}
 
-	if isEof(token) {
-		if strict {
+	if strict {
+		if isEof(token) {
 			return nil, eofError(token)
-		} else {
-			return token, nil
 		}
-	}
 
-	if strict {
 		return nil, unexpectedTokenError(token)
 	}
 
@@ -432,7 +428,7 @@ func (c *parseContext) fetchAll(types []string, e error) ([]*lexer.Token, error)
 			return nil, e
 		}
 
-		if t == nil || isEof(t) {
+		if t == nil {
 			break
 		}
 
-- 
2.43.0


From 6f1bc0af0b0af56249def80ae389e9afec3c34ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 37/60] fix: reject literal and error tokens emitted by token
 hooks as documented

---
 parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6f555b9..88a64d8 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -197,7 +197,11 @@ func (p *Parser) IsSpecialType(tt int) bool {
 
 // IsValidType returns true if given argument is a valid token type that can be used by parser.
 func (p *Parser) IsValidType(tt int) bool {
-	return tt >= lexer.LowestTokenType && tt < len(p.grammar.Tokens) && tt != grammar.AnyToken
+	if tt < 0 {
+		return p.IsSpecialType(tt)
+	}
+
+	return tt < len(p.grammar.Tokens) && p.grammar.Tokens[tt].Flags&(grammar.LiteralToken|grammar.ErrorToken) == 0
 }
 
 // TokenType returns token type for given type name and true if given argument is a valid token type name.
-- 
2.43.0


From 60b13f4509717d09a064142544bbc02c9f7aaf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:02 +0000
Subject: [PATCH 38/60] fix: reject empty literals which no token type can
 match

---
 langdef/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/langdef/parser.go b/langdef/parser.go
index cc27625..494a6a3 100755
--- a/langdef/parser.go
+++ b/langdef/parser.go
@@ -1118,7 +1118,8 @@ func assignTokenGroups(g *parseResult, e error) error {
 		caseless := (lt.Name == strings.ToUpper(lt.Name))
 		for j, re := range res {
 			rt := rts[j]
-			if (rt.Flags&grammar.CaselessToken == 0 || caseless) && re.FindString(lt.Name) == lt.Name {
+			loc := re.FindStringIndex(lt.Name)
+			if (rt.Flags&grammar.CaselessToken == 0 || caseless) && loc != nil && loc[1]-loc[0] == len(lt.Name) {
 				g.TTypes[rcnt+i] |= 1 << j
 			}
 		}
-- 
2.43.0


From a211f11207110b1b1a3be2058e7547b36d096fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 39/60] fix: close argument lists of layer commands in
 generated Go code

---
 cmd/llxgen/llxgen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index 5c0da93..cadc060 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -140,6 +140,7 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 						for _, arg := range command.Arguments[1:] {
 							buffer.WriteString(fmt.Sprintf(", %q", arg))
 						}
+						buffer.WriteString("}")
 					}
 					buffer.WriteString("},\n")
 				}
-- 
2.43.0


From 2d8f1387248471402eb9dc3de2b803c9ac8c58b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 40/60] fix: reject names which cannot be used in generated Go
 code

---
 cmd/llxgen/llxgen.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index cadc060..f4c80f3 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -21,6 +21,7 @@ import (
 	"encoding/json"
 	"flag"
 	"fmt"
+	"go/token"
 	"os"
 	"path/filepath"
 	"regexp"
@@ -105,10 +106,12 @@ func makeGo(gr *grammar.Grammar) ([]byte, error) {
 	}
 
 	re := regexp.MustCompile("^[A-Za-z_][A-Za-z_0-9]*$")
-	if !re.MatchString(packageName) {
+	if !re.MatchString(packageName) || packageName == "_" || token.IsKeyword(packageName) {
 		return nil, fmt.Errorf("invalid package name: %s", packageName)
 	}
-	if !re.MatchString(varName) {
+	// names used by generated code and by Go itself cannot be redeclared
+	if !re.MatchString(varName) || token.IsKeyword(varName) ||
+		varName == "grammar" || varName == "string" || varName == "init" || (varName == "main" && packageName == "main") {
 		return nil, fmt.Errorf("invalid variable name: %s", varName)
 	}
 
-- 
2.43.0


From 26b575cab2e0aecdcda428b9f7600fcadf507287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:43 +0000
Subject: [PATCH 41/60] fix: report text which cannot be represented in JSON
 instead of replacing it

---
 cmd/llxgen/llxgen.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cmd/llxgen/llxgen.go b/cmd/llxgen/llxgen.go
index f4c80f3..a8190de 100755
--- a/cmd/llxgen/llxgen.go
+++ b/cmd/llxgen/llxgen.go
@@ -25,6 +25,7 @@ import (
 	"os"
 	"path/filepath"
 	"regexp"
+	"unicode/utf8"
 
 	"github.com/ava12/llx/grammar"
 	"github.com/ava12/llx/langdef"
@@ -88,6 +89,21 @@ func main() {
 }
 
 func makeJson(gr *grammar.Grammar) ([]byte, error) {
+	// JSON strings cannot hold arbitrary bytes
+	for _, t := range gr.Tokens {
+		if !utf8.ValidString(t.Name) {
+			return nil, fmt.Errorf("cannot represent literal %q in JSON", t.Name)
+		}
+	}
+	for _, layer := range gr.Layers {
+		for _, command := range layer.Commands {
+			for _, arg := range command.Arguments {
+				if !utf8.ValidString(arg) {
+					return nil, fmt.Errorf("cannot represent layer argument %q in JSON", arg)
+				}
+			}
+		}
+	}
 	return json.MarshalIndent(gr, "", "  ")
 }
 
-- 
2.43.0


From ed241ee59bd0bad2af5722ea20b0a9c0747469da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:03 +0000
Subject: [PATCH 42/60] fix: do not ignore errors of hooks called while
 resolving a conflict

---
 parser/parser.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 88a64d8..f2f8fdd 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -505,7 +505,11 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 
 		for !tokenConsumed && node != nil {
-			rule, found := pc.nextRule(ctx, tok, gr.States[node.state])
+			rule, found, e := pc.nextRule(ctx, tok, gr.States[node.state])
+			if e != nil {
+				return nil, e
+			}
+
 			if !found {
 				if tok == nil {
 					tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
@@ -751,7 +755,7 @@ func (pc *ParseContext) pullToken(ctx context.Context, types grammar.BitSet, lay
 	}
 }
 
-func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool) {
+func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool, e error) {
 	r, found = pc.appliedRules.First()
 	if found {
 		return
@@ -767,7 +771,11 @@ func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State)
 		r = rules[0]
 	} else {
 		//		tokens, rules := pc.resolve(ctx, t, rules)
-		tokens, rules := pc.resolveConflict(ctx, t)
+		tokens, rules, e := pc.resolveConflict(ctx, t)
+		if e != nil {
+			return r, false, e
+		}
+
 		r = rules[0]
 		for i := len(tokens) - 1; i >= 1; i-- {
 			// nil means no suitable token for speculative branches, it must be fetched again for actual state
@@ -945,7 +953,7 @@ func (pc *ParseContext) applyRule(ctx context.Context, tok *lexer.Token, rule gr
 	return tokenConsumed, e
 }
 
-func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Token, []grammar.Rule) {
+func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Token, []grammar.Rule, error) {
 	var tokens []*lexer.Token
 	nextBranches := []*parsingBranch{pc.newParsingBranch()}
 	var branches []*parsingBranch
@@ -1021,7 +1029,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 		var e error
 		tok, e = pc.nextToken(ctx, types)
 		if e != nil {
-			break
+			return nil, nil, e
 		}
 	}
 
@@ -1033,5 +1041,5 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 		b = lastError
 	}
 
-	return tokens, b.AppliedRules
+	return tokens, b.AppliedRules, nil
 }
-- 
2.43.0


From 4edf15811252758ef75022618a9e277d21c6c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 43/60] fix: do not move spaces behind the end of their source
 in indent layer

---
 parser/layers/indent/indent.go | 69 +++++++++++++++++++++++++++-------
 1 file changed, 56 insertions(+), 13 deletions(-)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index 7ecf60f..e30bb3a 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -117,6 +117,8 @@ func (ls *layerState) handle(tok *parser.Token, tc *parser.TokenContext) (bool,
 	role := ls.role(tok)
 
 	switch role {
+	case emptyRole:
+		emit, extra = ls.handleEmpty(tok)
 	case eoiRole:
 		emit = false
 		extra, e = ls.handleEoi(tok)
@@ -239,14 +241,18 @@ func (ls *layerState) handleSpace(tok *parser.Token, tc *parser.TokenContext) (b
 	if ls.state != indentSide {
 		ls.state = ls.adjustIndent(content)
 	}
-	nextTok, e := tc.PeekToken()
+	nextRole, e := ls.nextRole(tc)
 	if e != nil {
 		return false, nil, e
 	}
 
 	ls.spaces = append(ls.spaces, tok)
-	role := ls.role(nextTok)
-	if role != commonRole {
+	if nextRole == eoiRole {
+		extra, e := ls.dedentAll()
+		return false, append(extra, ls.pad()...), e
+	}
+
+	if nextRole != commonRole {
 		return false, nil, nil
 	}
 
@@ -270,6 +276,21 @@ func (ls *layerState) handleSpace(tok *parser.Token, tc *parser.TokenContext) (b
 	return false, extra, e
 }
 
+// nextRole returns role of the next token, skips tokens having no content, e.g. end-of-file ones.
+func (ls *layerState) nextRole(tc *parser.TokenContext) (tokenRole, error) {
+	for {
+		tok, e := tc.PeekToken()
+		if e != nil || tok == nil {
+			return emptyRole, e
+		}
+
+		role := ls.role(tok)
+		if role != emptyRole {
+			return role, nil
+		}
+	}
+}
+
 func (ls *layerState) stripNl(content []byte) ([]byte, bool) {
 	nlPos := bytes.LastIndexByte(content, '\n')
 	if nlPos >= 0 {
@@ -327,19 +348,40 @@ func (ls *layerState) handleSide(tok *parser.Token, tc *parser.TokenContext) (bo
 	return false, nil, common.MakeWrongTokenError(layerName, tok, errInvalidIndent)
 }
 
-func (ls *layerState) handleEoi(tok *parser.Token) ([]*parser.Token, error) {
-	var result []*parser.Token
+// handleEmpty keeps pending spaces in front of an end-of-file token or a token having no content.
+func (ls *layerState) handleEmpty(tok *parser.Token) (bool, []*parser.Token) {
+	if len(ls.spaces) == 0 {
+		return true, nil
+	}
 
-	if len(ls.indentStack) != 0 {
-		for range ls.indentStack {
-			dedent, e := ls.parser.MakeToken(ls.dedentType, nil)
-			if e != nil {
-				return nil, e
-			}
+	if tok.Type() < 0 {
+		// dropped special token is emitted by parser after extra tokens
+		return false, ls.pad()
+	}
 
-			result = append(result, dedent)
+	return false, ls.pad(tok)
+}
+
+func (ls *layerState) dedentAll() ([]*parser.Token, error) {
+	var result []*parser.Token
+
+	for range ls.indentStack {
+		dedent, e := ls.parser.MakeToken(ls.dedentType, nil)
+		if e != nil {
+			return nil, e
 		}
-		ls.indentStack = nil
+
+		result = append(result, dedent)
+	}
+	ls.indentStack = nil
+
+	return result, nil
+}
+
+func (ls *layerState) handleEoi(tok *parser.Token) ([]*parser.Token, error) {
+	result, e := ls.dedentAll()
+	if e != nil {
+		return nil, e
 	}
 
 	result = append(result, ls.pad()...)
@@ -361,6 +403,7 @@ func (l *layer) Init(context.Context, *parser.ParseContext) parser.Hooks {
 	return parser.Hooks{
 		Tokens: parser.TokenHooks{
 			parser.AnyToken: hook,
+			parser.EofToken: hook,
 			parser.EoiToken: hook,
 		},
 	}
-- 
2.43.0


From 16f7881a5fa0bcff8eaebbb0cb1023d79b6aeadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:31 +0000
Subject: [PATCH 44/60] fix: report repeated space command of indent layer

---
 parser/layers/indent/indent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/layers/indent/indent.go b/parser/layers/indent/indent.go
index e30bb3a..a9dd422 100644
--- a/parser/layers/indent/indent.go
+++ b/parser/layers/indent/indent.go
@@ -430,6 +430,10 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 		switch command.Command {
 
 		case spaceCommand:
+			if gotSpaces {
+				return nil, common.MakeCommandAlreadyUsedError(layerName, command.Command)
+			}
+
 			gotSpaces = true
 			if len(command.Arguments) == 0 {
 				return nil, common.MakeNumberOfArgumentsError(layerName, command.Command, 1, 0)
-- 
2.43.0


From c1b127236dce4d0d10eccb36d947879262efbf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 45/60] fix: report arguments of save-position command of
 convert layer

---
 parser/layers/convert/convert.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/layers/convert/convert.go b/parser/layers/convert/convert.go
index df403f7..ca2c684 100644
--- a/parser/layers/convert/convert.go
+++ b/parser/layers/convert/convert.go
@@ -125,6 +125,10 @@ func (t template) Setup(commands []grammar.LayerCommand, p *parser.Parser) (pars
 			}
 
 		case savePositionCommand:
+			if len(command.Arguments) != 0 {
+				return nil, common.MakeNumberOfArgumentsError(layerName, command.Command, 0, len(command.Arguments))
+			}
+
 			savePosition = true
 
 		default:
-- 
2.43.0


From 1d856dc6e041b4379a888d55bb9b2cca33076ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:27 +0000
Subject: [PATCH 46/60] fix: stop checking the rest of source when context is
 cancelled

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index f2f8fdd..2590e75 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -547,6 +547,11 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 
 	if pc.fullSource && (tok == nil || tok.Type() != lexer.EoiTokenType) {
 		for {
+			e = ctx.Err()
+			if e != nil {
+				return nil, e
+			}
+
 			tok, e = pc.nextToken(ctx, lexer.AllTokenTypes)
 			if e != nil {
 				return nil, e
-- 
2.43.0


From 1829c0f46fbf70cfd8645864a49c501bb422c738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:58 +0000
Subject: [PATCH 47/60] fix: detach elements which have siblings but no parent

---
 tree/tree.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index bf56278..053223c 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -163,11 +163,25 @@ func Children(n Element) []Element {
 // Detach removes element from tree. Parent and sibling references are removed, but descendants are kept.
 // Does nothing if the element is the tree root.
 func Detach(n Element) {
-	if n == nil || n.Parent() == nil {
+	if n == nil {
+		return
+	}
+
+	if n.Parent() != nil {
+		n.Parent().RemoveChild(n)
 		return
 	}
 
-	n.Parent().RemoveChild(n)
+	prev := n.Prev()
+	next := n.Next()
+	n.SetPrev(nil)
+	n.SetNext(nil)
+	if prev != nil {
+		prev.SetNext(next)
+	}
+	if next != nil {
+		next.SetPrev(prev)
+	}
 }
 
 // Replace replaces old element with new one or simply removes old element if the new one is nil.
@@ -183,17 +197,27 @@ func Replace(old, n Element) {
 	}
 
 	pa := old.Parent()
-	if pa == nil {
+	pr := old.Prev()
+	ne := old.Next()
+	if pa == nil && pr == nil && ne == nil {
 		return
 	}
 
-	ne := old.Next()
+	if pr == n {
+		pr = n.Prev()
+	}
 	if ne == n {
 		ne = n.Next()
 	}
 	Detach(old)
 	Detach(n)
-	pa.AddChild(n, ne)
+	if pa != nil {
+		pa.AddChild(n, ne)
+	} else if pr != nil {
+		AppendSibling(pr, n)
+	} else {
+		PrependSibling(ne, n)
+	}
 }
 
 // AppendSibling places new element after target one.
-- 
2.43.0


From b119aa98d6062086e12603b867bb015f3f79cd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 48/60] fix: do nothing when an element is asked to be its own
 sibling

---
 tree/tree.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tree/tree.go b/tree/tree.go
index 053223c..ca131f8 100644
--- a/tree/tree.go
+++ b/tree/tree.go
@@ -222,9 +222,9 @@ func Replace(old, n Element) {
 
 // AppendSibling places new element after target one.
 // Target becomes new element's previous sibling, target's next sibling (if any) becomes new element's next sibling.
-// Does nothing if either new or target element is nil.
+// Does nothing if either new or target element is nil or if they are the same element.
 func AppendSibling(prev, el Element) {
-	if el == nil || prev == nil {
+	if el == nil || prev == nil || el == prev {
 		return
 	}
 
@@ -245,9 +245,9 @@ func AppendSibling(prev, el Element) {
 
 // PrependSibling places new element before target one.
 // Target becomes new element's next sibling, target's previous sibling (if any) becomes new element's previous sibling.
-// Does nothing if either new or target element is nil.
+// Does nothing if either new or target element is nil or if they are the same element.
 func PrependSibling(next, el Element) {
-	if el == nil || next == nil {
+	if el == nil || next == nil || el == next {
 		return
 	}
 
-- 
2.43.0


From 804ef6729ab6388f7c07143d2505dd7f6700fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 49/60] fix: pass results of nested nodes through nodes having
 no hook instance in every hook layer

---
 parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 2590e75..e77930a 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -693,8 +693,10 @@ func (pc *ParseContext) getNodeHook(ctx context.Context, layerIndex, ntIndex int
 	if hook != nil {
 		nc := &NodeContext{pc}
 		res, e = hook(ctx, pc.parser.grammar.Nodes[ntIndex].Name, tok, nc)
-	} else {
-		e = nil
+	}
+	if res == nil && e == nil {
+		// passes results of nested nodes to the closest hooked ancestor
+		res = &defaultHookInstance{}
 	}
 	return
 }
-- 
2.43.0


From 79a423b4b4edeae206848bf8bb52181b6b983ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:12 +0000
Subject: [PATCH 50/60] fix: do not repeat list items matching the end of input
 infinitely

---
 langdef/chunks.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/langdef/chunks.go b/langdef/chunks.go
index 59dfd6f..f905ac5 100755
--- a/langdef/chunks.go
+++ b/langdef/chunks.go
@@ -77,6 +77,9 @@ func (c *groupChunk) FirstTokens() *ints.Set {
 			break
 		}
 	}
+	if c.isRepeated {
+		result.Remove(lexer.EoiTokenType)
+	}
 
 	return result
 }
@@ -144,6 +147,8 @@ func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) []in
 
 	if c.isRepeated {
 		g.States[stateIndex].DropBypassRule(stateIndex)
+		// end of input never ends, repeating it makes an infinite loop
+		delete(g.States[stateIndex].Rules, lexer.EoiTokenType)
 		return nil
 	}
 
-- 
2.43.0


From e0bd989b51db90c24eec0000d20e6accb29418fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:27 +0000
Subject: [PATCH 51/60] fix: continue the list after the end-of-input item

---
 langdef/chunks.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/langdef/chunks.go b/langdef/chunks.go
index f905ac5..acb11d1 100755
--- a/langdef/chunks.go
+++ b/langdef/chunks.go
@@ -173,8 +173,8 @@ func (eoiChunk) ReentersStart() bool {
 	return false
 }
 
-func (eoiChunk) BuildStates(g *parseResult, stateIndex, _ int) []int {
-	g.States[stateIndex].AddRule(grammar.FinalState, grammar.SameNode, lexer.EoiTokenType)
+func (eoiChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) []int {
+	g.States[stateIndex].AddRule(nextIndex, grammar.SameNode, lexer.EoiTokenType)
 	return nil
 }
 
-- 
2.43.0


From abfec07965739e0105744275f58012613429fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:42 +0000
Subject: [PATCH 52/60] fix: keep all variants starting with the end-of-input
 item

---
 langdef/result.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/langdef/result.go b/langdef/result.go
index 5ee105d..ce93dd0 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -101,7 +101,7 @@ func (se *stateEntry) AddRule(state, nt int, tokens ...int) {
 	rule := grammar.Rule{0, state, nt}
 	for _, k := range tokens {
 		rule.Token = k
-		if k >= 0 {
+		if k != grammar.AnyToken {
 			se.Rules[k] = append(se.Rules[k], rule)
 		} else {
 			se.Rules[k] = []grammar.Rule{rule}
@@ -123,7 +123,7 @@ func (se *stateEntry) DropBypassRule(nextState int) {
 
 func (se *stateEntry) CopyRules(from *stateEntry) {
 	for k, rs := range from.Rules {
-		if k >= 0 {
+		if k != grammar.AnyToken {
 			se.Rules[k] = append(se.Rules[k], rs...)
 		} else {
 			se.Rules[k] = append([]grammar.Rule(nil), rs...)
-- 
2.43.0


From 5c6e14639f7e1332ed144d8734ceb9a56af1dbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:19 +0000
Subject: [PATCH 53/60] fix: do not repeat lists skipping optional items at the
 end of input

---
 langdef/chunks.go | 5 ++---
 langdef/result.go | 9 ++++-----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/langdef/chunks.go b/langdef/chunks.go
index acb11d1..5ff373e 100755
--- a/langdef/chunks.go
+++ b/langdef/chunks.go
@@ -146,9 +146,8 @@ func (c *groupChunk) BuildStates(g *parseResult, stateIndex, nextIndex int) []in
 	}
 
 	if c.isRepeated {
-		g.States[stateIndex].DropBypassRule(stateIndex)
-		// end of input never ends, repeating it makes an infinite loop
-		delete(g.States[stateIndex].Rules, lexer.EoiTokenType)
+		// list must not be repeated without consuming any tokens, and end of input never ends
+		g.States[stateIndex].DropRules(grammar.AnyToken, lexer.EoiTokenType)
 		return nil
 	}
 
diff --git a/langdef/result.go b/langdef/result.go
index ce93dd0..d20836a 100644
--- a/langdef/result.go
+++ b/langdef/result.go
@@ -113,11 +113,10 @@ func (se *stateEntry) BypassRule(nextState int) {
 	se.AddRule(nextState, grammar.SameNode, grammar.AnyToken)
 }
 
-// DropBypassRule removes the fallback rule if it leads to given state.
-func (se *stateEntry) DropBypassRule(nextState int) {
-	rs := se.Rules[grammar.AnyToken]
-	if len(rs) != 0 && rs[0].State == nextState {
-		delete(se.Rules, grammar.AnyToken)
+// DropRules removes all rules for given tokens.
+func (se *stateEntry) DropRules(tokens ...int) {
+	for _, k := range tokens {
+		delete(se.Rules, k)
 	}
 }
 
-- 
2.43.0


From 7976177bc3d4e4951f65b67943d0115bcf855979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:24 +0000
Subject: [PATCH 54/60] fix: do not start nodes after the end of input is
 matched

---
 parser/misc.go   |  3 +++
 parser/parser.go | 33 ++++++++++++++++++++++++++++-----
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/parser/misc.go b/parser/misc.go
index 10f2b8b..ef81de5 100644
--- a/parser/misc.go
+++ b/parser/misc.go
@@ -12,6 +12,8 @@ type nodeRec struct {
 
 type nodeStack struct {
 	nodes []nodeRec
+	// end of input is matched already
+	ended bool
 }
 
 func newNodeStack() *nodeStack {
@@ -47,6 +49,7 @@ func (s *nodeStack) Top() *nodeRec {
 func (s *nodeStack) Copy() *nodeStack {
 	result := &nodeStack{
 		nodes: make([]nodeRec, len(s.nodes)),
+		ended: s.ended,
 	}
 	copy(result.nodes, s.nodes)
 	return result
diff --git a/parser/parser.go b/parser/parser.go
index e77930a..40977f3 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -505,7 +505,7 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 		}
 
 		for !tokenConsumed && node != nil {
-			rule, found, e := pc.nextRule(ctx, tok, gr.States[node.state])
+			rule, found, e := pc.nextRule(ctx, tok)
 			if e != nil {
 				return nil, e
 			}
@@ -648,6 +648,27 @@ func (pc *ParseContext) findRules(t *Token, s grammar.State) []grammar.Rule {
 	return nil
 }
 
+// findNextRules is the same as findRules, except that after the end of input is matched it skips optional items
+// and does not let any node start: end of input never ends, so such nodes could be nested infinitely.
+func (pc *ParseContext) findNextRules(t *Token, stack *nodeStack) []grammar.Rule {
+	s := pc.parser.grammar.States[stack.Top().state]
+	if !stack.ended || t == nil || t.Type() != lexer.EoiTokenType {
+		return pc.findRules(t, s)
+	}
+
+	result := pc.findRules(nil, s)
+	if len(result) != 0 {
+		return result
+	}
+
+	for _, r := range pc.findRules(t, s) {
+		if r.Node == grammar.SameNode {
+			result = append(result, r)
+		}
+	}
+	return result
+}
+
 func (pc *ParseContext) possibleRuleKeys(t *Token) []int {
 	if t == nil {
 		return []int{grammar.AnyToken}
@@ -762,13 +783,13 @@ func (pc *ParseContext) pullToken(ctx context.Context, types grammar.BitSet, lay
 	}
 }
 
-func (pc *ParseContext) nextRule(ctx context.Context, t *Token, s grammar.State) (r grammar.Rule, found bool, e error) {
+func (pc *ParseContext) nextRule(ctx context.Context, t *Token) (r grammar.Rule, found bool, e error) {
 	r, found = pc.appliedRules.First()
 	if found {
 		return
 	}
 
-	rules := pc.findRules(t, s)
+	rules := pc.findNextRules(t, pc.nodeStack)
 	if len(rules) == 0 {
 		return
 	}
@@ -937,6 +958,9 @@ func (pc *ParseContext) applyRule(ctx context.Context, tok *lexer.Token, rule gr
 	gr := pc.parser.grammar
 	sameNode := (rule.Node == grammar.SameNode)
 	tokenConsumed := ((sameNode && rule.Token != grammar.AnyToken) || tok == nil)
+	if sameNode && rule.Token == lexer.EoiTokenType {
+		stack.ended = true
+	}
 	if rule.State != repeatState {
 		node.state = rule.State
 		if rule.State != grammar.FinalState {
@@ -965,7 +989,6 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 	nextBranches := []*parsingBranch{pc.newParsingBranch()}
 	var branches []*parsingBranch
 	q := queue.New[*parsingBranch]()
-	gr := pc.parser.grammar
 	var lastSuccess, lastError, b *parsingBranch
 
 	applyRule := func(b *parsingBranch, rule grammar.Rule) {
@@ -1003,7 +1026,7 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 					continue
 				}
 
-				rules := pc.findRules(tok, gr.States[b.NodeStack.Top().state])
+				rules := pc.findNextRules(tok, b.NodeStack)
 
 				switch len(rules) {
 				case 0:
-- 
2.43.0


From 1b3f322504c1ab22d00208a1a11aeee26036c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:16 +0000
Subject: [PATCH 55/60] fix: keep end of input state in lookahead branches

---
 parser/misc.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/misc.go b/parser/misc.go
index ef81de5..5c7ab58 100644
--- a/parser/misc.go
+++ b/parser/misc.go
@@ -73,6 +73,7 @@ func (pc *ParseContext) newParsingBranch() *parsingBranch {
 	result := &parsingBranch{
 		NodeStack: newNodeStack(),
 	}
+	result.NodeStack.ended = pc.nodeStack.ended
 	node := pc.nodeStack.Top()
 	result.NodeStack.Push(nodeRec{
 		types: node.types,
-- 
2.43.0


From b160a8cab9971915fbcf3be8fe5c782864051251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:19 +0000
Subject: [PATCH 56/60] fix: do not write to the lists of extra tokens returned
 by hooks

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 40977f3..f7ad2a7 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -867,7 +867,8 @@ func (pc *ParseContext) handleToken(ctx context.Context, tok *Token, layer int)
 		if len(extra) == 0 {
 			emit = true
 		} else {
-			extra = append(extra, tok)
+			// the list belongs to the hook
+			extra = append(extra[:len(extra):len(extra)], tok)
 		}
 	}
 	return emit, extra, e
-- 
2.43.0


From 8aa7c67ec554f53f7fd7bc1dd6a457bb50620488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:02 +0000
Subject: [PATCH 57/60] fix: return unused tokens to their own copies of a
 source queued several times

---
 parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index f7ad2a7..629c6a9 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -578,7 +578,8 @@ func (pc *ParseContext) returnToken(tok *Token) {
 		return
 	}
 
-	if s != pc.sources.Source() {
+	// the same source may be queued several times, tokens of each one are returned in reverse order
+	if s != pc.sources.Source() || tok.Pos().Pos() > pc.sources.Pos() {
 		pc.sources.Prepend(s)
 	}
 	pc.sources.Seek(tok.Pos().Pos())
-- 
2.43.0


From e71ae45ad8902663fa3c8a6b61e652e89730816d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:09 +0000
Subject: [PATCH 58/60] fix: keep changes made in source queue by token hook
 after peeking

---
 parser/hooks.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/parser/hooks.go b/parser/hooks.go
index 419fa38..5bd50aa 100644
--- a/parser/hooks.go
+++ b/parser/hooks.go
@@ -126,7 +126,7 @@ func (tc *TokenContext) ParseContext() *ParseContext {
 func (tc *TokenContext) PeekToken() (*Token, error) {
 	pc := tc.pc
 	if tc.tokenFetched {
-		return pc.fetchToken(lexer.AllTokenTypes)
+		return tc.fetchToken()
 	}
 
 	distance := tc.peekDistance
@@ -141,16 +141,27 @@ func (tc *TokenContext) PeekToken() (*Token, error) {
 		distance -= l
 	}
 
-	tc.snap = pc.sources.Snapshot()
-	tc.tokenFetched = true
-	return pc.fetchToken(lexer.AllTokenTypes)
+	return tc.fetchToken()
 }
 
-func (tc *TokenContext) restore() {
+// fetchToken continues fetching from where the previous call stopped.
+// Source queue is left as it was, so that hook is able to use and change it after peeking.
+func (tc *TokenContext) fetchToken() (*Token, error) {
+	sources := tc.pc.sources
+	snap := sources.Snapshot()
 	if tc.tokenFetched {
-		tc.pc.sources.Restore(tc.snap)
-		tc.tokenFetched = false
+		sources.Restore(tc.snap)
 	}
+	result, e := tc.pc.fetchToken(lexer.AllTokenTypes)
+	tc.snap = sources.Snapshot()
+	tc.tokenFetched = true
+	sources.Restore(snap)
+	return result, e
+}
+
+func (tc *TokenContext) restore() {
+	tc.snap = source.QueueSnapshot{}
+	tc.tokenFetched = false
 	tc.peekDistance = 0
 }
 
-- 
2.43.0


From f7534d0d1b95b2f1e045c2b0843e87191e9ddffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:31 +0000
Subject: [PATCH 59/60] fix: return unused tokens to sources which are queued
 several times and hold one token

---
 parser/parser.go | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 629c6a9..509d39a 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -233,6 +233,7 @@ type ParseContext struct {
 	sources      *source.Queue
 	literals     map[string]int
 	tokens       *queue.Queue[*Token]
+	eofs         []*Token // end of file tokens skipped before the last token
 	tokenHooks   []tokenHookRec
 	nodeHooks    [][]NodeHook
 	appliedRules *queue.Queue[grammar.Rule]
@@ -540,8 +541,15 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 	}
 	if !pc.fullSource {
 		// there may be unused tokens left after conflict resolution
+		sourceEnded := false
 		for leftTok, left := pc.tokens.Last(); left; leftTok, left = pc.tokens.Last() {
-			pc.returnToken(leftTok)
+			if leftTok.Type() == lexer.EofTokenType {
+				sourceEnded = true
+				continue
+			}
+
+			pc.returnToken(leftTok, sourceEnded)
+			sourceEnded = false
 		}
 	}
 
@@ -572,14 +580,14 @@ func (pc *ParseContext) parse(ctx context.Context) (any, error) {
 }
 
 // returnToken rewinds source queue to the start of fetched but unused token.
-func (pc *ParseContext) returnToken(tok *Token) {
+// sourceEnded means that token source is removed from the queue, the same source may be queued several times.
+func (pc *ParseContext) returnToken(tok *Token, sourceEnded bool) {
 	s := tok.Source()
 	if s == nil || tok.Type() == lexer.EoiTokenType {
 		return
 	}
 
-	// the same source may be queued several times, tokens of each one are returned in reverse order
-	if s != pc.sources.Source() || tok.Pos().Pos() > pc.sources.Pos() {
+	if sourceEnded || s != pc.sources.Source() {
 		pc.sources.Prepend(s)
 	}
 	pc.sources.Seek(tok.Pos().Pos())
@@ -724,20 +732,22 @@ func (pc *ParseContext) getNodeHook(ctx context.Context, layerIndex, ntIndex int
 }
 
 func (pc *ParseContext) nextToken(ctx context.Context, types grammar.BitSet) (*Token, error) {
-	if !pc.tokens.IsEmpty() {
-		result, _ := pc.tokens.First()
-		return result, nil
-	}
-
+	pc.eofs = nil
 	for {
-		tok, e := pc.pullToken(ctx, types, 0)
-		if e != nil {
-			return nil, e
+		tok, fetched := pc.tokens.First()
+		if !fetched {
+			var e error
+			tok, e = pc.pullToken(ctx, types, 0)
+			if e != nil {
+				return nil, e
+			}
 		}
 
 		isSide := tok != nil && pc.parser.IsSideType(tok.Type())
 		isEof := tok != nil && tok.Type() == lexer.EofTokenType
-		if !isEof && (!isSide || pc.passSides) {
+		if isEof {
+			pc.eofs = append(pc.eofs, tok)
+		} else if !isSide || pc.passSides {
 			return tok, nil
 		}
 	}
@@ -1063,6 +1073,8 @@ func (pc *ParseContext) resolveConflict(ctx context.Context, tok *Token) ([]*Tok
 		if e != nil {
 			return nil, nil, e
 		}
+
+		tokens = append(tokens, pc.eofs...)
 	}
 
 	if len(nextBranches) != 0 {
-- 
2.43.0


From 804009051d8508120aec4c7634440ffc58117027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:09 +0000
Subject: [PATCH 60/60] fix: do not call hook layer templates when the registry
 is locked, they may use it

---
 parser/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 509d39a..eec1033 100755
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -111,14 +111,14 @@ func New(g *grammar.Grammar, opts ...Option) (*Parser, error) {
 	result := &Parser{g, tokenNames, nodeNames, literals, ls, nil}
 
 	if len(g.Layers) != 0 {
-		knownHookLayerLock.RLock()
-		defer knownHookLayerLock.RUnlock()
-
 		result.layers = make([]HookLayer, 0, len(g.Layers))
 		for _, layerDef := range g.Layers {
 			tpl, has := settings.layerTemplates[layerDef.Type]
 			if !has {
+				// templates may register or use other ones, so they must not be called when the lock is held
+				knownHookLayerLock.RLock()
 				tpl, has = knownHookLayers[layerDef.Type]
+				knownHookLayerLock.RUnlock()
 			}
 			if !has {
 				return nil, unknownLayerError(layerDef.Type)
-- 
2.43.0

