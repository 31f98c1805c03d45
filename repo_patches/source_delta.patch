From 5813a573c7e5c4c6b88431a3acb28ac20c68f3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:56:21 +0000
Subject: [PATCH 01/44] fix: parser hangs on an unexpected token inside JSX
 children

A bare `}` (as in `<a>}`) is neither text, a tag nor an expression
container; the child loop peeked it forever without consuming it.
---
 ecma/parser/jsx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/jsx.go b/ecma/parser/jsx.go
index 65b7d82..6b922c1 100644
--- a/ecma/parser/jsx.go
+++ b/ecma/parser/jsx.go
@@ -353,6 +353,9 @@ func (p *Parser) jsx(root bool, opening bool) (Node, error) {
 				return nil, p.errorAtLoc(ahead.rng, ERR_UNTERMINATED_JSX_CONTENTS)
 			} else if av == T_ILLEGAL {
 				return nil, p.errorTok(ahead)
+			} else {
+				// any other token, such as a bare `}`, is never consumed by this loop
+				return nil, p.errorTok(ahead)
 			}
 		}
 		p.lexer.PopMode()
-- 
2.43.0


From 7395bcc875f2f1966a86b2eb311e3dda7760c9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:24 +0000
Subject: [PATCH 02/44] fix: LruCache keeps evicted keys, can exceed its
 capacity and races in Set

The eviction only removed the list elements and left their keys in the
dictionary, the presence test and the update were two critical sections,
and a capacity below 3 made the default number of evicted entries zero.
---
 util/lru.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/util/lru.go b/util/lru.go
index 3ad84ef..4d96134 100644
--- a/util/lru.go
+++ b/util/lru.go
@@ -16,6 +16,9 @@ func NewLruCache[K comparable, V any](cap int, clear int) *LruCache[K, V] {
 	if clear == 0 || clear > cap {
 		clear = cap / 3
 	}
+	if clear < 1 {
+		clear = 1
+	}
 	return &LruCache[K, V]{
 		cap:   cap,
 		store: NewOrderedMap[K, V](),
@@ -40,24 +43,21 @@ func (c *LruCache[K, V]) Get(key K) V {
 }
 
 func (c *LruCache[K, V]) Set(key K, val V) {
-	if c.HasKey(key) {
-		c.lock.Lock()
-		defer c.lock.Unlock()
+	c.lock.Lock()
+	defer c.lock.Unlock()
 
+	if c.store.HasKey(key) {
 		elem := c.store.Set(key, val)
 		c.store.list.MoveToBack(elem)
 		return
 	}
 
-	c.lock.Lock()
-	defer c.lock.Unlock()
-
 	// clear the store if it's full
 	if c.store.list.Len()+1 > c.cap {
 		for i := 0; i < c.clear; i++ {
 			elem := c.store.list.Front()
 			if elem != nil {
-				c.store.list.Remove(elem)
+				c.store.Remove(elem.Value.(*KvPair[K, V]).Key)
 			}
 		}
 	}
-- 
2.43.0


From 571bf7643f40d4114d6688514f25a53ae2fbdeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:47 +0000
Subject: [PATCH 03/44] fix: RemoveJsonComments mishandles escaped backslashes,
 CRLF, commas before comments and U+FFFD

- a string ending with an escaped backslash was not closed
- CRLF inside a block comment counted as two lines
- a trailing comma followed by a comment was kept
- a well encoded U+FFFD was reported as deformed
---
 util/str.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/util/str.go b/util/str.go
index 9989cb2..9dac78a 100644
--- a/util/str.go
+++ b/util/str.go
@@ -24,7 +24,7 @@ func RemoveJsonComments(str string) ([]byte, error) {
 
 	peek := func(str string) (rune, int, error) {
 		r, s := utf8.DecodeRuneInString(str)
-		if r == utf8.RuneError && s > 0 {
+		if r == utf8.RuneError && s == 1 {
 			return utf8.RuneError, 0, errors.New("deformed json")
 		}
 		return r, s, nil
@@ -33,7 +33,7 @@ func RemoveJsonComments(str string) ([]byte, error) {
 	peekNoWhite := func(str string) (rune, int, error) {
 		for {
 			r, s := utf8.DecodeRuneInString(str)
-			if r == utf8.RuneError && s > 0 {
+			if r == utf8.RuneError && s == 1 {
 				return utf8.RuneError, 0, errors.New("deformed json")
 			}
 
@@ -41,6 +41,18 @@ func RemoveJsonComments(str string) ([]byte, error) {
 				str = str[s:]
 				continue
 			}
+			// comments are white spaces too
+			if strings.HasPrefix(str, "//") {
+				if i := strings.IndexAny(str, "\r\n"); i != -1 {
+					str = str[i:]
+					continue
+				}
+			} else if strings.HasPrefix(str, "/*") {
+				if i := strings.Index(str[2:], "*/"); i != -1 {
+					str = str[i+4:]
+					continue
+				}
+			}
 			return r, s, nil
 		}
 	}
@@ -123,8 +135,15 @@ func RemoveJsonComments(str string) ([]byte, error) {
 
 		if state == 0 || state == 1 {
 			sb.WriteRune(next())
+			// the escaped backslash does not escape the char next to it
+			if state == 1 && r == '\\' && pr == '\\' {
+				r = utf8.RuneError
+			}
 		} else {
 			next()
+			if state == 3 && r == '\r' && strings.HasPrefix(str, "\n") {
+				next()
+			}
 			if state == 3 && (r == '\r' || r == '\n') {
 				sb.WriteRune('\n')
 			}
-- 
2.43.0


From 0b4628b324031048b968a6901b896e31d25cb756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:47 +0000
Subject: [PATCH 04/44] fix: UnTarGz writes outside the target directory for
 entries with .. in their names

---
 util/shell.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/shell.go b/util/shell.go
index 1e9c711..d277f95 100644
--- a/util/shell.go
+++ b/util/shell.go
@@ -11,6 +11,7 @@ import (
 	"os"
 	"os/exec"
 	"path/filepath"
+	"strings"
 )
 
 func Shell(command string, args ...string) {
@@ -107,6 +108,9 @@ func UnTarGz(tarball, dist string) error {
 		}
 
 		path := filepath.Join(dist, header.Name)
+		if rel, err := filepath.Rel(dist, path); err != nil || rel == ".." || strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
+			return fmt.Errorf("illegal path in tarball: %s", header.Name)
+		}
 		info := header.FileInfo()
 		if info.IsDir() {
 			if err = os.MkdirAll(path, info.Mode()); err != nil {
-- 
2.43.0


From 509ea042d6c6f3669311b66a5bb5989aa6aabbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:47 +0000
Subject: [PATCH 05/44] fix: UnTarGz does not notice a corrupted or truncated
 archive

The tar reader stops at the end-of-archive blocks, so the checksum in the
gzip trailer was never verified.
---
 util/shell.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/shell.go b/util/shell.go
index d277f95..ba61c60 100644
--- a/util/shell.go
+++ b/util/shell.go
@@ -130,5 +130,8 @@ func UnTarGz(tarball, dist string) error {
 			return err
 		}
 	}
-	return nil
+
+	// the checksum is only verified when the stream is read to its end
+	_, err = io.Copy(io.Discard, zipReader)
+	return err
 }
-- 
2.43.0


From 0c7ccf55bc0530633c98bec41603c1e15ff85618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:47 +0000
Subject: [PATCH 06/44] fix: UnTarGz fails on archives without entries for the
 parent directories

---
 util/shell.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/shell.go b/util/shell.go
index ba61c60..a063660 100644
--- a/util/shell.go
+++ b/util/shell.go
@@ -119,6 +119,9 @@ func UnTarGz(tarball, dist string) error {
 			continue
 		}
 
+		if err = os.MkdirAll(filepath.Dir(path), 0755); err != nil {
+			return err
+		}
 		file, err := os.OpenFile(path, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, info.Mode())
 		if err != nil {
 			return err
-- 
2.43.0


From 731e99642ab50c03afc5e18873531cc20f6c7965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:48 +0000
Subject: [PATCH 07/44] fix: MergeMaps modifies its sources

A nested map was shared with the destination, merging the next source
into the destination then changed the previous source.
---
 util/merge.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/util/merge.go b/util/merge.go
index ac53503..2c75129 100644
--- a/util/merge.go
+++ b/util/merge.go
@@ -11,11 +11,26 @@ func MergeMap(dst map[string]interface{}, src map[string]interface{}) {
 			}
 		}
 		if v != nil {
+			// nested maps are copied, otherwise the later merging into `dst` modifies `src`
+			if svm, ok := v.(map[string]interface{}); ok {
+				v = copyMap(svm)
+			}
 			dst[k] = v
 		}
 	}
 }
 
+func copyMap(m map[string]interface{}) map[string]interface{} {
+	ret := make(map[string]interface{}, len(m))
+	for k, v := range m {
+		if vm, ok := v.(map[string]interface{}); ok {
+			v = copyMap(vm)
+		}
+		ret[k] = v
+	}
+	return ret
+}
+
 func MergeMaps(dst map[string]interface{}, src ...map[string]interface{}) {
 	for _, s := range src {
 		MergeMap(dst, s)
-- 
2.43.0


From 56bb1e2be24ba12d515371dc08d51e1f0f8c8604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:54 +0000
Subject: [PATCH 08/44] fix: DirWalker leaks its routines, deadlocks on stop
 and read errors and races on its queue

Only one worker was told to finish, a second Stop or a Stop after the end
of the walk blocked for ever, a read error with a single worker deadlocked,
and the queue length was read without the lock.
---
 util/walkdir.go | 117 ++++++++++++++++++++++++++++++------------------
 1 file changed, 73 insertions(+), 44 deletions(-)

diff --git a/util/walkdir.go b/util/walkdir.go
index b2cc3ff..c2c21dd 100644
--- a/util/walkdir.go
+++ b/util/walkdir.go
@@ -18,16 +18,17 @@ type DirWalker struct {
 	handle DirWalkerHandle
 
 	dirs     *list.List
+	pending  int // the number of directories which are either queued or in process
 	dirsLock sync.Mutex
 
 	newJob chan bool
 
-	wg    sync.WaitGroup
-	wgFin chan bool
+	// all the routines launched by the walker
+	wg sync.WaitGroup
 
-	stop chan error
-	fin  chan bool
-	err  error
+	fin     chan bool
+	finOnce sync.Once
+	err     error
 }
 
 func NewDirWalker(dir string, concurrent int, handle DirWalkerHandle) *DirWalker {
@@ -45,26 +46,23 @@ func NewDirWalker(dir string, concurrent int, handle DirWalkerHandle) *DirWalker
 
 		newJob: make(chan bool),
 
-		wg:    sync.WaitGroup{},
-		wgFin: make(chan bool),
-
-		stop: make(chan error),
-		fin:  make(chan bool),
+		wg:  sync.WaitGroup{},
+		fin: make(chan bool),
 	}
 
 	return w.initWorkers()
 }
 
-func (w *DirWalker) shift() string {
-	if w.dirs.Len() == 0 {
-		return ""
-	}
+func (w *DirWalker) shift() (string, bool) {
 	w.dirsLock.Lock()
 	defer w.dirsLock.Unlock()
 
 	d := w.dirs.Front()
+	if d == nil {
+		return "", false
+	}
 	w.dirs.Remove(d)
-	return d.Value.(string)
+	return d.Value.(string), true
 }
 
 func (w *DirWalker) push(file string) {
@@ -72,21 +70,61 @@ func (w *DirWalker) push(file string) {
 	defer w.dirsLock.Unlock()
 
 	w.dirs.PushBack(file)
+	w.pending += 1
+}
+
+// marks one directory as processed, the walk is finished if it's the last one
+func (w *DirWalker) done() {
+	w.dirsLock.Lock()
+	w.pending -= 1
+	last := w.pending == 0
+	w.dirsLock.Unlock()
+
+	if last {
+		w.finish(nil)
+	}
+}
+
+func (w *DirWalker) finish(err error) {
+	w.finOnce.Do(func() {
+		w.err = err
+		close(w.fin)
+	})
+}
+
+func (w *DirWalker) finished() bool {
+	select {
+	case <-w.fin:
+		return true
+	default:
+		return false
+	}
+}
+
+func (w *DirWalker) notify() {
+	select {
+	case w.newJob <- true:
+	case <-w.fin:
+	}
 }
 
 func (w *DirWalker) walk() {
-loop:
+	defer w.wg.Done()
+
 	for {
 		select {
 		case <-w.newJob:
-			dir := w.shift()
-			if dir == "" {
+			dir, ok := w.shift()
+			if !ok {
 				continue
 			}
+			if w.finished() {
+				return
+			}
 
 			files, err := os.ReadDir(dir)
 			if err != nil {
-				w.stop <- err
+				w.finish(err)
 				return
 			}
 
@@ -95,33 +133,40 @@ loop:
 			w.handle(dir, true, w)
 
 			for _, file := range files {
+				if w.finished() {
+					return
+				}
+
 				pth := filepath.Join(dir, file.Name())
 				if file.IsDir() {
-					w.wg.Add(1)
 					w.push(pth)
-					go func() { w.newJob <- true }()
+					w.wg.Add(1)
+					go func() {
+						defer w.wg.Done()
+						w.notify()
+					}()
 				} else {
 					w.handle(pth, false, w)
 				}
 			}
 
-			w.wg.Done()
+			w.done()
 		case <-w.fin:
-			break loop
+			return
 		}
 	}
 }
 
 func (w *DirWalker) initWorkers() *DirWalker {
+	w.wg.Add(w.Concurrent)
 	for i := 0; i < w.Concurrent; i++ {
 		go w.walk()
-
 	}
 	return w
 }
 
 func (w *DirWalker) Stop(err error) {
-	w.stop <- err
+	w.finish(err)
 }
 
 func (w *DirWalker) Err() error {
@@ -129,25 +174,9 @@ func (w *DirWalker) Err() error {
 }
 
 func (w *DirWalker) Walk() {
-	w.wg.Add(1)
 	w.push(w.Dir)
-	w.newJob <- true
-
-	go func() {
-		w.wg.Wait()
-		w.wgFin <- true
-	}()
-
-loop:
-	for {
-		select {
-		case <-w.wgFin:
-			break loop
-		case err := <-w.stop:
-			w.err = err
-			break loop
-		}
-	}
+	w.notify()
 
-	w.fin <- true
+	<-w.fin
+	w.wg.Wait()
 }
-- 
2.43.0


From e454fb4d58045869f9a5c41c5021e7cf439897e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:54 +0000
Subject: [PATCH 09/44] fix: ParseCache panics on finished keys, parses a key
 twice and answers only one waiter

---
 parseutil/cache.go | 61 ++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/parseutil/cache.go b/parseutil/cache.go
index fae7a2c..18c2ec7 100644
--- a/parseutil/cache.go
+++ b/parseutil/cache.go
@@ -18,17 +18,23 @@ type Parser interface {
 	Parse(file, code string, readFile bool, biz interface{}) Parsed
 }
 
+type parseTask struct {
+	done    bool
+	result  Parsed
+	waiters []FutureParsed
+}
+
 type ParseCache[T comparable] struct {
 	ps map[ParserType]Parser
 
-	store     map[T]interface{}
+	store     map[T]*parseTask
 	storeLock sync.Mutex
 }
 
 func NewParseCache[T comparable]() *ParseCache[T] {
 	return &ParseCache[T]{
 		ps:        map[ParserType]Parser{},
-		store:     map[T]interface{}{},
+		store:     map[T]*parseTask{},
 		storeLock: sync.Mutex{},
 	}
 }
@@ -38,37 +44,38 @@ func (c *ParseCache[T]) SetParser(p Parser) {
 }
 
 func (c *ParseCache[T]) Parse(typ ParserType, key T, file, code string, readFile bool, biz interface{}) FutureParsed {
-	var r interface{}
-	c.storeLock.Lock()
-	r = c.store[key]
-	c.storeLock.Unlock()
+	ret := make(FutureParsed, 1)
 
-	switch v := r.(type) {
-	case FutureParsed: // already has a pending process
-		return v
+	c.storeLock.Lock()
+	defer c.storeLock.Unlock()
 
-	case *Parsed: // process has been done before
-		ret := make(FutureParsed, 1)
-		ret <- v
+	task, ok := c.store[key]
+	if ok && task.done { // process has been done before
+		ret <- task.result
+		return ret
+	}
+	if ok { // already has a pending process
+		task.waiters = append(task.waiters, ret)
 		return ret
+	}
 
-	case nil: // first time
-		ret := make(FutureParsed, 1)
-		c.storeLock.Lock()
-		c.store[key] = ret
-		c.storeLock.Unlock()
+	// first time
+	task = &parseTask{waiters: []FutureParsed{ret}}
+	c.store[key] = task
 
-		go func() {
-			r := c.ps[typ].Parse(file, code, readFile, biz)
+	go func() {
+		r := c.ps[typ].Parse(file, code, readFile, biz)
 
-			c.storeLock.Lock()
-			c.store[key] = r
-			c.storeLock.Unlock()
+		c.storeLock.Lock()
+		defer c.storeLock.Unlock()
 
-			ret <- r
-		}()
+		task.done = true
+		task.result = r
+		for _, w := range task.waiters {
+			w <- r
+		}
+		task.waiters = nil
+	}()
 
-		return ret
-	}
-	panic("unreachable")
+	return ret
 }
-- 
2.43.0


From d48244620a8f87dd089d2edc1e175313a450c2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:49 +0000
Subject: [PATCH 10/44] fix: expression evaluator computes wrong values for
 most operators, conversions and equality

---
 ecma/exec/vm.go | 314 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 297 insertions(+), 17 deletions(-)

diff --git a/ecma/exec/vm.go b/ecma/exec/vm.go
index 1e5f63d..d063f80 100644
--- a/ecma/exec/vm.go
+++ b/ecma/exec/vm.go
@@ -4,9 +4,13 @@ import (
 	"container/list"
 	"fmt"
 	"math"
+	"math/big"
 	"reflect"
+	"regexp"
 	"strconv"
+	"strings"
 	"time"
+	"unicode"
 
 	"github.com/hsiaosiyuan0/mole/ecma/parser"
 	"github.com/hsiaosiyuan0/mole/ecma/walk"
@@ -32,7 +36,7 @@ var builtinProto = map[reflect.Type]map[string]NativeFn{
 			arr := this.([]interface{})
 			target := args.Get(0)
 			for _, arg := range arr {
-				if reflect.DeepEqual(arg, target) {
+				if SameValueZero(arg, target) {
 					return true
 				}
 			}
@@ -180,10 +184,14 @@ func (ee *ExprEvaluator) init() {
 			lhs := ee.pop()
 
 			switch n.Op() {
-			case parser.T_EQ, parser.T_EQ_S:
-				ee.push(reflect.DeepEqual(lhs, rhs))
-			case parser.T_NE, parser.T_NE_S:
-				ee.push(!reflect.DeepEqual(lhs, rhs))
+			case parser.T_EQ:
+				ee.push(LooseEqual(lhs, rhs))
+			case parser.T_EQ_S:
+				ee.push(StrictEqual(lhs, rhs))
+			case parser.T_NE:
+				ee.push(!LooseEqual(lhs, rhs))
+			case parser.T_NE_S:
+				ee.push(!StrictEqual(lhs, rhs))
 			case parser.T_ADD:
 				ee.push(Add(lhs, rhs))
 			case parser.T_SUB:
@@ -191,16 +199,51 @@ func (ee *ExprEvaluator) init() {
 			case parser.T_MUL:
 				ee.push(ToNum(lhs) * ToNum(rhs))
 			case parser.T_DIV:
-				r := ToNum(rhs)
-				if r == 0 {
-					ee.push(math.NaN())
+				ee.push(ToNum(lhs) / ToNum(rhs))
+			case parser.T_MOD:
+				ee.push(math.Mod(ToNum(lhs), ToNum(rhs)))
+			case parser.T_POW:
+				ee.push(Pow(ToNum(lhs), ToNum(rhs)))
+			case parser.T_LT:
+				ee.push(Less(lhs, rhs))
+			case parser.T_GT:
+				ee.push(Less(rhs, lhs))
+			case parser.T_LTE:
+				ee.push(LessEqual(lhs, rhs))
+			case parser.T_GTE:
+				ee.push(LessEqual(rhs, lhs))
+			case parser.T_BIT_AND:
+				ee.push(float64(ToInt32(lhs) & ToInt32(rhs)))
+			case parser.T_BIT_OR:
+				ee.push(float64(ToInt32(lhs) | ToInt32(rhs)))
+			case parser.T_BIT_XOR:
+				ee.push(float64(ToInt32(lhs) ^ ToInt32(rhs)))
+			case parser.T_LSH:
+				ee.push(float64(ToInt32(lhs) << (uint32(ToInt32(rhs)) & 31)))
+			case parser.T_RSH:
+				ee.push(float64(ToInt32(lhs) >> (uint32(ToInt32(rhs)) & 31)))
+			case parser.T_RSH_U:
+				ee.push(float64(uint32(ToInt32(lhs)) >> (uint32(ToInt32(rhs)) & 31)))
+			case parser.T_AND:
+				if ToBool(lhs) {
+					ee.push(rhs)
 				} else {
-					ee.push(ToNum(lhs) - r)
+					ee.push(lhs)
 				}
-			case parser.T_AND:
-				ee.push(ToBool(lhs) && ToBool(rhs))
 			case parser.T_OR:
-				ee.push(ToBool(lhs) || ToBool(rhs))
+				if ToBool(lhs) {
+					ee.push(lhs)
+				} else {
+					ee.push(rhs)
+				}
+			case parser.T_NULLISH:
+				if lhs == nil {
+					ee.push(rhs)
+				} else {
+					ee.push(lhs)
+				}
+			default:
+				ee.push(nil)
 			}
 		})
 
@@ -216,11 +259,49 @@ func (ee *ExprEvaluator) init() {
 			switch n.Op() {
 			case parser.T_NOT:
 				ee.push(!ToBool(arg))
+			case parser.T_ADD:
+				ee.push(ToNum(arg))
+			case parser.T_SUB:
+				ee.push(-ToNum(arg))
+			case parser.T_BIT_NOT:
+				ee.push(float64(^ToInt32(arg)))
+			case parser.T_TYPE_OF:
+				ee.push(TypeOf(arg))
+			case parser.T_VOID:
+				ee.push(nil)
 			default:
 				ee.push(false)
 			}
 		})
 
+	ee.addListener(walk.NodeAfterEvent(parser.N_EXPR_COND),
+		func(node parser.Node, key string, ctx *walk.VisitorCtx) {
+			if ee.err != nil {
+				return
+			}
+
+			alt := ee.pop()
+			cons := ee.pop()
+			if ToBool(ee.pop()) {
+				ee.push(cons)
+			} else {
+				ee.push(alt)
+			}
+		})
+
+	ee.addListener(walk.NodeAfterEvent(parser.N_EXPR_SEQ),
+		func(node parser.Node, key string, ctx *walk.VisitorCtx) {
+			if ee.err != nil {
+				return
+			}
+
+			last := ee.pop()
+			for i := len(node.(*parser.SeqExpr).Elems()) - 1; i > 0; i-- {
+				ee.pop()
+			}
+			ee.push(last)
+		})
+
 	ee.addListener(walk.NodeAfterEvent(parser.N_EXPR_CALL),
 		func(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			if ee.err != nil {
@@ -265,6 +346,8 @@ func (ee *ExprEvaluator) GetResult() (interface{}, error) {
 }
 
 func Add(a, b interface{}) interface{} {
+	a = ToPrim(a)
+	b = ToPrim(b)
 	_, sa := a.(string)
 	_, sb := b.(string)
 	if sa || sb {
@@ -274,22 +357,207 @@ func Add(a, b interface{}) interface{} {
 	return ToNum(a) + ToNum(b)
 }
 
+func Pow(a, b float64) float64 {
+	if math.IsNaN(b) || math.Abs(a) == 1 && math.IsInf(b, 0) {
+		return math.NaN()
+	}
+	return math.Pow(a, b)
+}
+
+func Less(a, b interface{}) bool {
+	a = ToPrim(a)
+	b = ToPrim(b)
+	as, sa := a.(string)
+	bs, sb := b.(string)
+	if sa && sb {
+		return as < bs
+	}
+	return ToNum(a) < ToNum(b)
+}
+
+func LessEqual(a, b interface{}) bool {
+	a = ToPrim(a)
+	b = ToPrim(b)
+	as, sa := a.(string)
+	bs, sb := b.(string)
+	if sa && sb {
+		return as <= bs
+	}
+	return ToNum(a) <= ToNum(b)
+}
+
+// objects are compared by their identities
+func SameRef(a, b interface{}) bool {
+	va := reflect.ValueOf(a)
+	vb := reflect.ValueOf(b)
+	if va.Type() != vb.Type() {
+		return false
+	}
+	switch va.Kind() {
+	case reflect.Slice:
+		return va.Pointer() == vb.Pointer() && va.Len() == vb.Len()
+	case reflect.Map, reflect.Func, reflect.Ptr:
+		return va.Pointer() == vb.Pointer()
+	}
+	return reflect.DeepEqual(a, b)
+}
+
+func StrictEqual(a, b interface{}) bool {
+	ta := TypeOf(a)
+	if ta != TypeOf(b) {
+		return false
+	}
+	switch ta {
+	case "undefined":
+		return true
+	case "number":
+		return ToNum(a) == ToNum(b)
+	}
+	return SameRef(a, b)
+}
+
+func LooseEqual(a, b interface{}) bool {
+	ta := TypeOf(a)
+	tb := TypeOf(b)
+	if ta == tb || a == nil || b == nil {
+		return StrictEqual(a, b)
+	}
+	if IsPrim(a) && IsPrim(b) {
+		return ToNum(a) == ToNum(b)
+	}
+	if !IsPrim(a) && !IsPrim(b) {
+		return false
+	}
+	return LooseEqual(ToPrim(a), ToPrim(b))
+}
+
+func SameValueZero(a, b interface{}) bool {
+	if TypeOf(a) == "number" && TypeOf(b) == "number" && math.IsNaN(ToNum(a)) && math.IsNaN(ToNum(b)) {
+		return true
+	}
+	return StrictEqual(a, b)
+}
+
+func TypeOf(v interface{}) string {
+	switch v.(type) {
+	case nil:
+		return "undefined"
+	case bool:
+		return "boolean"
+	case float64, int:
+		return "number"
+	case string:
+		return "string"
+	case *BuiltinFn, NativeFn:
+		return "function"
+	}
+	return "object"
+}
+
+func IsPrim(v interface{}) bool {
+	t := TypeOf(v)
+	return t != "object" && t != "function"
+}
+
+func ToPrim(v interface{}) interface{} {
+	if IsPrim(v) {
+		return v
+	}
+	return ToStr(v)
+}
+
 func ToNum(v interface{}) float64 {
 	switch vv := v.(type) {
 	case float64:
 		return vv
+	case int:
+		return float64(vv)
+	case bool:
+		if vv {
+			return 1
+		}
+		return 0
 	case string:
-		if i, err := strconv.ParseFloat(vv, 64); err == nil {
-			return i
+		return StrToNum(vv)
+	case nil:
+		return math.NaN()
+	}
+	return StrToNum(ToStr(v))
+}
+
+var decimalLit = regexp.MustCompile(`^[+-]?(Infinity|([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?)$`)
+
+func StrToNum(s string) float64 {
+	s = strings.TrimFunc(s, func(r rune) bool {
+		return unicode.IsSpace(r) && r != '\u0085' || r == '\ufeff'
+	})
+	if s == "" {
+		return 0
+	}
+	if len(s) > 2 && s[0] == '0' {
+		base := 0
+		switch s[1] {
+		case 'x', 'X':
+			base = 16
+		case 'o', 'O':
+			base = 8
+		case 'b', 'B':
+			base = 2
+		}
+		if base != 0 {
+			i, ok := new(big.Int).SetString(s[2:], base)
+			if !ok || s[2] == '+' || s[2] == '-' {
+				return math.NaN()
+			}
+			f, _ := new(big.Float).SetInt(i).Float64()
+			return f
 		}
 	}
-	return math.NaN()
+	if !decimalLit.MatchString(s) {
+		return math.NaN()
+	}
+	f, _ := strconv.ParseFloat(s, 64)
+	return f
+}
+
+func ToInt32(v interface{}) int32 {
+	f := ToNum(v)
+	if math.IsNaN(f) || math.IsInf(f, 0) {
+		return 0
+	}
+	f = math.Mod(math.Trunc(f), 4294967296)
+	return int32(uint32(int64(f)))
+}
+
+func NumToStr(f float64) string {
+	if math.IsNaN(f) {
+		return "NaN"
+	}
+	if math.IsInf(f, 1) {
+		return "Infinity"
+	}
+	if math.IsInf(f, -1) {
+		return "-Infinity"
+	}
+	if f == 0 {
+		return "0"
+	}
+	abs := math.Abs(f)
+	if abs >= 1e-6 && abs < 1e21 {
+		return strconv.FormatFloat(f, 'f', -1, 64)
+	}
+	s := strconv.FormatFloat(f, 'e', -1, 64)
+	// remove the leading zeros of the exponent, `1e-07` => `1e-7`
+	i := strings.IndexByte(s, 'e') + 2
+	return s[:i] + strings.TrimLeft(s[i:], "0")
 }
 
 func ToStr(v interface{}) string {
 	switch vv := v.(type) {
 	case float64:
-		return strconv.FormatFloat(vv, 'f', -1, 64)
+		return NumToStr(vv)
+	case int:
+		return NumToStr(float64(vv))
 	case string:
 		return vv
 	case bool:
@@ -297,6 +565,18 @@ func ToStr(v interface{}) string {
 			return "true"
 		}
 		return "false"
+	case nil:
+		return "undefined"
+	case []interface{}:
+		elems := make([]string, len(vv))
+		for i, elem := range vv {
+			if elem != nil {
+				elems[i] = ToStr(elem)
+			}
+		}
+		return strings.Join(elems, ",")
+	case map[string]interface{}:
+		return "[object Object]"
 	}
 	return fmt.Sprintf("%v", v)
 }
@@ -304,7 +584,7 @@ func ToStr(v interface{}) string {
 func ToBool(v interface{}) bool {
 	switch vv := v.(type) {
 	case float64:
-		return vv != 0
+		return vv != 0 && !math.IsNaN(vv)
 	case int:
 		return vv != 0
 	case string:
-- 
2.43.0


From 2ed0006d1b5afded0a88ad010334265de03676cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:50 +0000
Subject: [PATCH 11/44] fix: expression evaluator misreads computed members,
 array holes and non-canonical indexes

---
 ecma/exec/vm.go | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/ecma/exec/vm.go b/ecma/exec/vm.go
index d063f80..ea64abf 100644
--- a/ecma/exec/vm.go
+++ b/ecma/exec/vm.go
@@ -109,12 +109,18 @@ func (ee *ExprEvaluator) init() {
 			}
 
 			name := node.(*parser.Ident).Val()
-			if ctx.ParentNode().Type() == parser.N_EXPR_MEMBER && key == "Prop" {
+			if me, ok := ctx.ParentNode().(*parser.MemberExpr); ok && key == "Prop" && !me.Compute() {
 				ee.push(name)
 			} else if name == "undefined" {
 				ee.push(nil)
+			} else if v, ok := ee.vars[name]; ok {
+				ee.push(v)
+			} else if name == "NaN" {
+				ee.push(math.NaN())
+			} else if name == "Infinity" {
+				ee.push(math.Inf(1))
 			} else {
-				ee.push(ee.vars[name])
+				ee.push(nil)
 			}
 		})
 
@@ -126,9 +132,13 @@ func (ee *ExprEvaluator) init() {
 
 			n := node.(*parser.ArrLit)
 			arrLen := len(n.Elems())
-			arr := make([]interface{}, arrLen)
-			for i := len(n.Elems()) - 1; i >= 0; i-- {
-				arr[i] = ee.pop()
+			// the spare capacity gives empty arrays their own identity
+			arr := make([]interface{}, arrLen, arrLen+1)
+			for i := arrLen - 1; i >= 0; i-- {
+				// holes are not visited so they are not on the stack
+				if n.Elems()[i] != nil {
+					arr[i] = ee.pop()
+				}
 			}
 			ee.push(arr)
 		})
@@ -633,20 +643,18 @@ func GetElem(obj, prop interface{}) interface{} {
 		return nil
 	}
 
-	p := ToNum(prop)
-	if math.IsNaN(p) || p < 0 {
-		return nil
-	}
-
 	arr, ok := obj.([]interface{})
 	if !ok {
 		return nil
 	}
 
-	i := int(p)
-	if i > len(arr)-1 {
+	p := ToNum(prop)
+	// only the canonical form of an index denotes an element
+	if math.IsNaN(p) || p != math.Trunc(p) || p < 0 || p > float64(len(arr)-1) || ToStr(p) != ToStr(prop) {
 		return nil
 	}
+
+	i := int(p)
 	return arr[i]
 }
 
-- 
2.43.0


From 49d48e4ed2bedd284ce43f074d35ba27c2a26abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:51 +0000
Subject: [PATCH 12/44] fix: expression evaluator keeps values of earlier
 evaluations

---
 ecma/exec/vm.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecma/exec/vm.go b/ecma/exec/vm.go
index ea64abf..2f21dd4 100644
--- a/ecma/exec/vm.go
+++ b/ecma/exec/vm.go
@@ -341,6 +341,7 @@ func (ee *ExprEvaluator) Exec(vars map[string]interface{}) *ExprEvaluator {
 	} else {
 		ee.vars = vars
 	}
+	ee.stk.Init()
 	walk.VisitNode(ee.node, "", ee.walkCtx.VisitorCtx())
 	return ee
 }
-- 
2.43.0


From 46024ee64569cb5a3ab904c3b47491a4a676afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:54:25 +0000
Subject: [PATCH 13/44] fix: numeric literals such as 0.5, 089 and those over
 32 bits get wrong values

---
 ecma/parser/astutil.go | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/ecma/parser/astutil.go b/ecma/parser/astutil.go
index 4e6757a..77b59da 100644
--- a/ecma/parser/astutil.go
+++ b/ecma/parser/astutil.go
@@ -61,22 +61,25 @@ func ParseBigint(t string) *big.Int {
 func ParseFloat(t string) float64 {
 	t = strings.ReplaceAll(t, "_", "")
 
+	base := 0
+	digits := ""
 	if strings.HasPrefix(t, "0x") || strings.HasPrefix(t, "0X") {
-		f, _ := strconv.ParseUint(t[2:], 16, 32)
-		return float64(f)
+		base, digits = 16, t[2:]
+	} else if strings.HasPrefix(t, "0o") || strings.HasPrefix(t, "0O") {
+		base, digits = 8, t[2:]
+	} else if strings.HasPrefix(t, "0b") || strings.HasPrefix(t, "0B") {
+		base, digits = 2, t[2:]
+	} else if len(t) > 1 && t[0] == '0' && strings.Trim(t, "01234567") == "" {
+		// legacy octal, otherwise it's a decimal such as `0.5` and `089`
+		base, digits = 8, t
 	}
-	if strings.HasPrefix(t, "0o") || strings.HasPrefix(t, "0O") {
-		f, _ := strconv.ParseUint(t[2:], 8, 32)
-		return float64(f)
-	}
-	if strings.HasPrefix(t, "0b") || strings.HasPrefix(t, "0B") {
-		f, _ := strconv.ParseUint(t[2:], 2, 32)
-		return float64(f)
-	}
-	if strings.HasPrefix(t, "0") && len(t) > 1 {
-		t = strings.TrimLeft(t, "0")
-		f, _ := strconv.ParseUint(t, 8, 32)
-		return float64(f)
+	if base != 0 {
+		i, ok := new(big.Int).SetString(digits, base)
+		if !ok {
+			return math.NaN()
+		}
+		f, _ := new(big.Float).SetInt(i).Float64()
+		return f
 	}
 	f, _ := strconv.ParseFloat(t, 64)
 	return f
-- 
2.43.0


From 136b6fc4c6fdad9a249492474b1b600303055311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:50 +0000
Subject: [PATCH 14/44] fix: slashes after literals and template tails read as
 regexps, and regexps after unary operators as divisions

---
 ecma/parser/token.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index 703feec..c79f046 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -351,15 +351,15 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_COMMENT, "comment", 0, false, false, false},
 
 	// literals
-	{T_NULL, "null", 0, false, true, true},
-	{T_TRUE, "true", 0, false, true, true},
-	{T_FALSE, "false", 0, false, true, true},
+	{T_NULL, "null", 0, false, false, true},
+	{T_TRUE, "true", 0, false, false, true},
+	{T_FALSE, "false", 0, false, false, true},
 	{T_NUM, "number", 0, false, false, true},
 	{T_STRING, "string", 0, false, false, true},
 
 	{T_TPL_HEAD, "template head", 0, false, true, true},
 	{T_TPL_SPAN, "template span", 0, false, false, false},
-	{T_TPL_TAIL, "template tail", 0, false, true, false},
+	{T_TPL_TAIL, "template tail", 0, false, false, false},
 
 	{T_NAME, "identifier", 0, false, false, true},
 	{T_NAME_PVT, "private identifier", 0, false, false, false},
@@ -411,7 +411,7 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_CTX_KEYWORD_STRICT_END, "contextual keyword strict end", 0, false, false, false},
 	{T_AS, "as", 0, false, false, false},
 	{T_ASYNC, "async", 0, false, false, false},
-	{T_AWAIT, "await", 0, true, false, false},
+	{T_AWAIT, "await", 0, true, true, false},
 	{T_FROM, "from", 0, false, false, false},
 	{T_GET, "get", 0, false, false, false},
 	{T_META, "meta", 0, false, false, false},
@@ -429,7 +429,7 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_BRACKET_L, "[", 0, false, true, true},
 	{T_BRACKET_R, "]", 0, false, false, false},
 	{T_DOT, ".", 0, false, false, false},
-	{T_DOT_TRI, "...", 0, false, false, false},
+	{T_DOT_TRI, "...", 0, false, true, false},
 	{T_SEMI, ";", 0, false, true, false},
 	{T_COMMA, ",", 0, false, true, false},
 	{T_HOOK, "?", 0, false, true, false},
@@ -478,9 +478,9 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 
 	// unary
 	{T_UNARY_OP_BEGIN, "unary operator being", 0, false, false, false},
-	{T_TYPE_OF, "typeof", 0, true, false, true},
-	{T_VOID, "void", 0, true, false, true},
-	{T_DELETE, "delete", 0, true, false, true},
+	{T_TYPE_OF, "typeof", 0, true, true, true},
+	{T_VOID, "void", 0, true, true, true},
+	{T_DELETE, "delete", 0, true, true, true},
 	{T_NOT, "!", 0, true, true, true},
 	{T_BIT_NOT, "~", 0, true, true, true},
 	{T_UNARY_OP_END, "unary operator end", 0, false, false, false},
-- 
2.43.0


From 05f180e721eda982943e3ae88ec8885bdcfa154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:29 +0000
Subject: [PATCH 15/44] fix: import declarations without from or commas
 accepted, import calls and nested new misread, super[x] and await await
 rejected

---
 ecma/parser/parser.go | 88 ++++++++++++++++---------------------------
 ecma/parser/token.go  |  2 +-
 2 files changed, 34 insertions(+), 56 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 259d5c8..cc3f925 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -656,7 +656,7 @@ func (p *Parser) exportFrom(typ bool) ([]Node, bool, Node, error) {
 		if ahead.value == T_NAME && ahead.text == "as" && p.feat&FEAT_EXPORT_ALL_AS_NS != 0 {
 			p.lexer.Next()
 
-			id, err := p.ident(nil, false)
+			id, err := p.identWithKw(nil, false)
 			if err != nil {
 				return nil, false, nil, err
 			}
@@ -810,6 +810,15 @@ func (p *Parser) importDec() (Node, error) {
 		return p.exprStmt()
 	}
 
+	if p.feat&FEAT_IMPORT_DEC == 0 {
+		return nil, p.errorTok(importTok)
+	}
+
+	scope := p.scope()
+	if !scope.IsKind(SPK_GLOBAL) && (!scope.IsKind(SPK_TS_MODULE) || scope.IsKind(SPK_TS_MODULE_INDIRECT)) {
+		return nil, p.errorAtLoc(importTok.rng, ERR_IMPORT_EXPORT_SHOULD_AT_TOP_LEVEL)
+	}
+
 	p.lexer.Next() // consume `import`
 
 	specs := make([]Node, 0, 5)
@@ -899,10 +908,11 @@ func (p *Parser) importDec() (Node, error) {
 		}
 	}
 
-	ahead = p.lexer.Peek()
-	av := ahead.value
-	if av == T_NAME && ahead.text == "from" && !ahead.ContainsEscape() {
-		p.lexer.Next()
+	// `from` is required if there is any import clause
+	if typDec || tok.value != T_STRING {
+		if from := p.lexer.Next(); !IsName(from, "from", false) {
+			return nil, p.errorTok(from)
+		}
 	}
 
 	str, err := p.nextMustTok(T_STRING)
@@ -928,7 +938,7 @@ func (p *Parser) importDec() (Node, error) {
 			ref.Dec = node
 			ref.BindKind = BK_CONST
 			ref.Typ = RDT_IMPORT
-			if p.addLocalBinding(p.Symtab().Scopes[0], ref, true, ref.Id.val); err != nil {
+			if err := p.addLocalBinding(p.Symtab().Scopes[0], ref, true, ref.Id.val); err != nil {
 				return nil, err
 			}
 		}
@@ -1024,8 +1034,12 @@ func (p *Parser) importNamed(typ bool) ([]Node, error) {
 			return nil, err
 		}
 		specs = append(specs, spec)
-		if p.lexer.Peek().value == T_COMMA {
+
+		ahead := p.lexer.Peek()
+		if ahead.value == T_COMMA {
 			p.lexer.Next()
+		} else if ahead.value != T_BRACE_R {
+			return nil, p.errorTok(ahead)
 		}
 	}
 
@@ -4425,7 +4439,7 @@ func (p *Parser) lhs(notColon bool) (Node, error) {
 	var node Node
 	var err error
 	if tok.value == T_NEW {
-		node, err = p.newExpr()
+		node, err = p.newExpr(false)
 	} else {
 		node, _, err = p.callExpr(nil, true, false, span.Range{}, notColon)
 	}
@@ -4443,7 +4457,9 @@ func (p *Parser) lhs(notColon bool) (Node, error) {
 }
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-NewExpression
-func (p *Parser) newExpr() (Node, error) {
+// `callee` indicates whether the expr is the callee of the outer `new`, in which case the calls
+// and the accesses after it are left for the outer one
+func (p *Parser) newExpr(callee bool) (Node, error) {
 	rng := p.rng()
 	new := p.lexer.Next()
 
@@ -4529,29 +4545,11 @@ func (p *Parser) newExpr() (Node, error) {
 
 	var ret Node
 	ret = &NewExpr{N_EXPR_NEW, p.finRng(rng), expr, args, span.Range{}, ti}
-	root := true
-	for {
-		tok := p.lexer.Peek()
-		tv := tok.value
-		if p.aheadIsArgList(tok) {
-			if ret, _, err = p.callExpr(ret, root, false, span.Range{}, false); err != nil {
-				return nil, err
-			}
-		} else if tv == T_BRACKET_L || tv == T_DOT || tv == T_OPT_CHAIN {
-			if tv == T_OPT_CHAIN {
-				optLoc = tok.rng
-			}
-			if ret, _, err = p.memberExpr(ret, true, root, optLoc); err != nil {
-				return nil, err
-			}
-		} else {
-			break
-		}
-		if root {
-			root = false
-		}
+	if callee {
+		return ret, nil
 	}
-	return ret, nil
+	ret, _, err = p.callExpr(ret, true, false, span.Range{}, false)
+	return ret, err
 }
 
 func (p *Parser) checkCallee(callee Node, nextLoc span.Range) error {
@@ -4733,16 +4731,6 @@ func (p *Parser) importCall(tok *Token) (Node, error) {
 			return nil, p.errorAtLoc(prop.rng, ERR_META_PROP_CONTAINS_ESCAPE)
 		}
 
-		mp := &MetaProp{N_META_PROP, p.finRng(rng), meta, prop}
-		ahead = p.lexer.Peek()
-		av := ahead.value
-		if av == T_PAREN_L {
-			node, _, err := p.callExpr(mp, true, false, span.Range{}, false)
-			return node, err
-		} else if av == T_BRACKET_L || av == T_DOT || av == T_OPT_CHAIN {
-			node, _, err := p.memberExpr(mp, true, true, span.Range{})
-			return node, err
-		}
 		return &MetaProp{N_META_PROP, p.finRng(rng), meta, prop}, nil
 	}
 
@@ -4757,17 +4745,7 @@ func (p *Parser) importCall(tok *Token) (Node, error) {
 			return nil, err
 		}
 
-		call := &ImportCall{N_IMPORT_CALL, p.finRng(rng), src, span.Range{}}
-		ahead := p.lexer.Peek()
-		semi := ahead.value == T_SEMI
-		if semi || ahead.afterLineTerm {
-			if semi {
-				p.lexer.Next()
-			}
-			return call, nil
-		}
-
-		return p.condExpr(call, false, false, false)
+		return &ImportCall{N_IMPORT_CALL, p.finRng(rng), src, span.Range{}}, nil
 	}
 	return nil, p.errorTok(ahead)
 }
@@ -5536,7 +5514,7 @@ func (p *Parser) memberExpr(obj Node, call bool, root bool, optLoc span.Range) (
 	var err error
 	if obj == nil {
 		if p.lexer.Peek().value == T_NEW {
-			if obj, err = p.newExpr(); err != nil {
+			if obj, err = p.newExpr(true); err != nil {
 				return nil, span.Range{}, err
 			}
 		} else if obj, err = p.memberExprObj(); err != nil {
@@ -5631,8 +5609,8 @@ func (p *Parser) memberExprPropSubscript(obj Node, opt bool) (Node, error) {
 }
 
 func (p *Parser) memberExprPropDot(obj Node, opt bool) (Node, error) {
-	loc := p.rng()
 	tok := p.lexer.Next()
+	loc := tok.rng
 	tv := tok.value
 	kw, ok := tok.CanBePropKey()
 
@@ -5754,7 +5732,7 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 			return nil, p.errorAtLoc(loc, em)
 		}
 
-		if ahead.value != T_DOT && ahead.value != T_PAREN_L {
+		if ahead.value != T_DOT && ahead.value != T_PAREN_L && ahead.value != T_BRACKET_L {
 			return nil, p.errorTok(sup)
 		}
 		return &Super{N_SUPER, p.finRng(loc), span.Range{}, nil}, nil
diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index c79f046..a317780 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -411,7 +411,7 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_CTX_KEYWORD_STRICT_END, "contextual keyword strict end", 0, false, false, false},
 	{T_AS, "as", 0, false, false, false},
 	{T_ASYNC, "async", 0, false, false, false},
-	{T_AWAIT, "await", 0, true, true, false},
+	{T_AWAIT, "await", 0, true, true, true},
 	{T_FROM, "from", 0, false, false, false},
 	{T_GET, "get", 0, false, false, false},
 	{T_META, "meta", 0, false, false, false},
-- 
2.43.0


From 3551507c4a773143d472ab19c119a12203aafba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:06 +0000
Subject: [PATCH 16/44] fix: parenthesized member targets, tagged templates
 after new and their ranges, updates of patterns, import.meta in scripts

---
 ecma/estree/convert.go |  6 +++---
 ecma/parser/ast.go     |  8 ++++++++
 ecma/parser/parser.go  | 20 ++++++++++----------
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 11284d3..06a824c 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -1321,7 +1321,7 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 	case parser.N_EXPR_TPL:
 		tpl := node.(*parser.TplExpr)
 		if tpl.Tag() == nil {
-			return tplLiteral(tpl.Range(), tpl.Elems(), ctx)
+			return tplLiteral(tpl.TplRange(), tpl.Elems(), ctx)
 		}
 		locWithTag := tpl.Tag().Range()
 		locWithTag.Hi = tpl.Range().Hi
@@ -1335,7 +1335,7 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 					End:            int(locWithTag.Hi),
 					Loc:            locOfRng(locWithTag, ctx.Parser.Source(), ctx),
 					Tag:            Convert(tpl.Tag(), ctx),
-					Quasi:          tplLiteral(tpl.Range(), tpl.Elems(), ctx),
+					Quasi:          tplLiteral(tpl.TplRange(), tpl.Elems(), ctx),
 					TypeParameters: typArgs(ti, ctx),
 				}
 			}
@@ -1346,7 +1346,7 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 			End:   int(locWithTag.Hi),
 			Loc:   locOfRng(locWithTag, ctx.Parser.Source(), ctx),
 			Tag:   Convert(tpl.Tag(), ctx),
-			Quasi: tplLiteral(tpl.Range(), tpl.Elems(), ctx),
+			Quasi: tplLiteral(tpl.TplRange(), tpl.Elems(), ctx),
 		}
 	case parser.N_STMT_IMPORT:
 		stmt := node.(*parser.ImportDec)
diff --git a/ecma/parser/ast.go b/ecma/parser/ast.go
index 5f3421f..bfea74e 100644
--- a/ecma/parser/ast.go
+++ b/ecma/parser/ast.go
@@ -902,6 +902,14 @@ func (n *TplExpr) Tag() Node {
 }
 
 func (n *TplExpr) Range() span.Range {
+	if n.tag == nil {
+		return n.rng
+	}
+	return span.Range{Lo: n.tag.Range().Lo, Hi: n.rng.Hi}
+}
+
+// the range of the template itself without its tag
+func (n *TplExpr) TplRange() span.Range {
 	return n.rng
 }
 
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index cc3f925..b3556b9 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4180,7 +4180,7 @@ func (p *Parser) isSimpleLVal(expr Node, pat bool, inParen bool, member bool, op
 		return member
 	case N_EXPR_PAREN:
 		node := expr.(*ParenExpr)
-		return p.isSimpleLVal(node.expr, pat, true, false, optAssign)
+		return p.isSimpleLVal(node.expr, false, true, member, optAssign)
 	case N_EXPR_BIN:
 		node := expr.(*BinExpr)
 		return node.op == T_TS_AS
@@ -4380,7 +4380,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 		if err != nil {
 			return nil, err
 		}
-		if !p.isSimpleLVal(arg, true, false, true, false) {
+		if !p.isSimpleLVal(arg, false, false, true, false) {
 			return nil, p.errorAtLoc(arg.Range(), ERR_ASSIGN_TO_RVALUE)
 		}
 		ud := &UpdateExpr{N_EXPR_UPDATE, p.finRng(rng), tok.value, true, arg, span.Range{}}
@@ -4420,7 +4420,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 		return arg, nil
 	}
 
-	if !p.isSimpleLVal(arg, true, false, true, false) {
+	if !p.isSimpleLVal(arg, false, false, true, false) {
 		return nil, p.errorAtLoc(arg.Range(), ERR_ASSIGN_TO_RVALUE)
 	}
 
@@ -4532,7 +4532,7 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 		// ```
 		// new C``
 		// ```
-		if len(args) == 0 && p.lexer.Peek().value == T_TPL_HEAD {
+		if args == nil && p.lexer.Peek().value == T_TPL_HEAD {
 			if wt, ok := expr.(NodeWithTypInfo); ok {
 				wt.SetTypInfo(ti)
 			}
@@ -4719,7 +4719,7 @@ func (p *Parser) importCall(tok *Token) (Node, error) {
 	meta := &Ident{N_NAME, p.finRng(tok.rng), p.TokText(tok), false, tok.ContainsEscape(), span.Range{}, false, p.newTypInfo(N_NAME)}
 
 	ahead := p.lexer.Peek()
-	if ahead.value == T_DOT && p.feat&FEAT_META_PROPERTY != 0 {
+	if ahead.value == T_DOT && p.feat&FEAT_META_PROPERTY != 0 && p.feat&FEAT_MODULE != 0 {
 		p.lexer.Next()
 		prop, err := p.ident(nil, false)
 		if err != nil {
@@ -5556,6 +5556,10 @@ func (p *Parser) memberExpr(obj Node, call bool, root bool, optLoc span.Range) (
 			if obj, err = p.memberExprPropDot(obj, false); err != nil {
 				return nil, span.Range{}, err
 			}
+		} else if tv == T_TPL_HEAD && !call {
+			if obj, err = p.tplExpr(obj, false); err != nil {
+				return nil, span.Range{}, err
+			}
 		} else {
 			break
 		}
@@ -5588,11 +5592,7 @@ func (p *Parser) memberExprObj() (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	obj = p.tsNoNull(obj)
-	if p.lexer.Peek().value == T_TPL_HEAD {
-		return p.tplExpr(obj, false)
-	}
-	return obj, nil
+	return p.tsNoNull(obj), nil
 }
 
 func (p *Parser) memberExprPropSubscript(obj Node, opt bool) (Node, error) {
-- 
2.43.0


From c1d21e75158339156e350355306eac6602d1398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:48 +0000
Subject: [PATCH 17/44] fix: rest and parenthesized assignment targets that are
 members are rejected, holes in default values crash

---
 ecma/parser/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index b3556b9..8b4a07a 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4871,6 +4871,9 @@ func (p *Parser) checkDefaultVal(val Node, yield bool, destruct bool, field bool
 	case N_LIT_ARR:
 		n := val.(*ArrLit)
 		for _, elem := range n.elems {
+			if elem == nil { // hole
+				continue
+			}
 			if err := p.checkDefaultVal(elem, yield, destruct, field); err != nil {
 				return err
 			}
@@ -5101,7 +5104,7 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 				return nil, p.errorAtLoc(arg.Range(), ERR_REST_ARG_NOT_SIMPLE)
 			}
 			n.arg = arg
-		} else {
+		} else if !destruct || at != N_EXPR_MEMBER {
 			if !prop && p.feat&FEAT_BINDING_REST_ELEM_NESTED == 0 {
 				nested := UnParen(n.arg)
 				if nested.Type() != N_NAME {
@@ -5124,7 +5127,7 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 		return rest, nil
 	case N_EXPR_PAREN:
 		sub := arg.(*ParenExpr).expr
-		if !destruct || !p.isPrimitive(sub) && !p.isTsLhs(sub) {
+		if !destruct || !p.isPrimitive(sub) && !p.isTsLhs(sub) && sub.Type() != N_EXPR_MEMBER {
 			st := sub.Type()
 			if !(destruct && st == N_EXPR_BIN && sub.(*BinExpr).op == T_TS_AS) {
 				if st != N_LIT_ARR && st != N_LIT_OBJ && st != N_NAME {
-- 
2.43.0


From 46175a88f631149bd672e524bd726ec4ae75a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:43 +0000
Subject: [PATCH 18/44] fix: async functions and arrows are misread: statements
 starting with async, async arrow bodies and params, calls of async, lexer
 modes of nested functions

---
 ecma/parser/lexer.go  |   1 +
 ecma/parser/parser.go | 473 +++++++++++++++++++++++-------------------
 ecma/parser/symtab.go |   9 +
 3 files changed, 266 insertions(+), 217 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index bcd7e56..721e178 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -278,6 +278,7 @@ func (l *Lexer) PushMode(mode LexerModeKind, inherit bool) {
 		v := LM_NONE
 		v |= l.CurMode().kind & LM_STRICT
 		v |= l.CurMode().kind & LM_ASYNC
+		v |= l.CurMode().kind & LM_GENERATOR
 		v |= l.CurMode().kind & LM_TS
 		mode |= v
 	}
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 8b4a07a..6e27d7f 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -60,6 +60,12 @@ type Parser struct {
 	postCmts map[Node][]span.Range
 
 	errTypArgMissingGT ErrTypArgMissingGT
+
+	// offsets of the latest `await` and `yield` expressions and of the latest identifier
+	// named `await` in the function being parsed, they are illegal in the params of arrow functions
+	awaitPos      uint32
+	yieldPos      uint32
+	awaitIdentPos uint32
 }
 
 type ParserOpts struct {
@@ -390,7 +396,7 @@ func (p *Parser) stmt() (node Node, err error) {
 		if allowDec {
 			node, err = p.varDecStmt(kind, false)
 		}
-	} else if p.aheadIsAsync(tok, false, false) {
+	} else if p.aheadIsAsyncFn(tok) {
 		if tok.ContainsEscape() {
 			return nil, p.errorAt(tok.value, tok.rng, ERR_ESCAPE_IN_KEYWORD)
 		}
@@ -489,7 +495,7 @@ func (p *Parser) exportDec() (Node, error) {
 		if err != nil {
 			return nil, err
 		}
-	} else if p.aheadIsAsync(tok, false, false) {
+	} else if p.aheadIsAsyncFn(tok) {
 		if tok.ContainsEscape() {
 			return nil, p.errorAt(tv, tok.rng, ERR_ESCAPE_IN_KEYWORD)
 		}
@@ -508,7 +514,7 @@ func (p *Parser) exportDec() (Node, error) {
 		tv = tok.value
 		if tv == T_FUNC {
 			node.dec, err = p.fnDec(false, nil, true)
-		} else if p.aheadIsAsync(tok, false, false) {
+		} else if p.aheadIsAsyncFn(tok) {
 			if tok.ContainsEscape() {
 				return nil, p.errorAt(tv, tok.rng, ERR_ESCAPE_IN_KEYWORD)
 			}
@@ -2502,54 +2508,62 @@ func (p *Parser) aheadIsAsync(tok *Token, prop bool, pvt bool) bool {
 		if ahead.afterLineTerm {
 			return false
 		}
-		if ahead.value == T_FUNC ||
-			(p.aheadIsArgList(ahead) && !prop) ||
-			ahead.value == T_MUL {
+		if ahead.value == T_FUNC || (p.aheadIsArgList(ahead) && !prop) {
 			return true
 		}
-		_, canProp := ahead.CanBePropKey()
-		if prop && (ahead.value == T_BRACKET_L || ahead.value == T_NAME || ahead.value == T_STRING || canProp) {
+		if !prop {
+			// `async a => {}`
+			if ahead.value != T_NAME || IsName(ahead, "in", false) || IsName(ahead, "instanceof", false) {
+				return false
+			}
+			if IsName(ahead, "of", false) || p.ts && IsName(ahead, "as", false) {
+				return p.aheadIsAsyncArrow()
+			}
 			return true
 		}
-		if pvt && ahead.value == T_NAME_PVT {
+		if ahead.value == T_MUL {
 			return true
 		}
-		if ahead.value == T_NAME {
-			if p.scope().IsKind(SPK_NOT_IN) && (IsName(ahead, "in", false) || IsName(ahead, "of", false)) {
-				return false
-			}
+		_, canProp := ahead.CanBePropKey()
+		if ahead.value == T_BRACKET_L || ahead.value == T_NAME || ahead.value == T_STRING || canProp {
+			return true
+		}
+		if pvt && ahead.value == T_NAME_PVT {
 			return true
 		}
 	}
 	return false
 }
 
+// reports whether the next three tokens are `async`, a name and `=>`
+func (p *Parser) aheadIsAsyncArrow() bool {
+	p.pushState()
+	p.lexer.Next()
+	p.lexer.Next()
+	tok := p.lexer.Peek()
+	arrow := tok.value == T_ARROW && !tok.afterLineTerm
+	p.popState()
+	return arrow
+}
+
+func (p *Parser) aheadIsAsyncFn(tok *Token) bool {
+	return p.aheadIsAsync(tok, false, false) && p.lexer.Peek2nd().value == T_FUNC
+}
+
 // https://tc39.es/ecma262/multipage/ecmascript-language-statements-and-declarations.html#prod-HoistableDeclaration
 func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, error) {
 	rng := p.rng()
 
-	// below value cache is needed since token is saved in the ring-buffer
-	// so the advanced token maybe override by next token peek
-	asyncHasEscape := false
-	var asyncLoc span.Range
 	if async != nil {
-		asyncHasEscape = async.ContainsEscape()
 		rng = async.rng
-		asyncLoc = async.rng
-
 		p.lexer.Next()
-		p.finRng(asyncLoc)
 	}
-	tok := p.lexer.Peek()
-	fn := false
-	if tok.value == T_FUNC {
-		fn = true
-		p.lexer.Next()
+	if _, err := p.nextMustTok(T_FUNC); err != nil {
+		return nil, err
 	}
 
-	tok = p.lexer.Peek()
+	tok := p.lexer.Peek()
 	generator := tok.value == T_MUL
-	genLoc := tok.rng
 	if generator {
 		if async != nil && p.feat&FEAT_ASYNC_GENERATOR == 0 {
 			return nil, p.errorTok(tok)
@@ -2590,50 +2604,24 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			}
 		}
 	}
-	if fn && !expr && !canNameOmitted && id == nil {
+	if !expr && !canNameOmitted && id == nil {
 		return nil, p.errorTok(tok)
 	}
 
 	scope := p.symtab.EnterScope(true, false, true)
 	if async != nil {
 		scope.AddKind(SPK_ASYNC)
-		p.lexer.AddMode(LM_ASYNC)
 	}
 	// 'yield' as function names
 	if generator {
-		p.scope().AddKind(SPK_GENERATOR)
+		scope.AddKind(SPK_GENERATOR)
 	}
+	fnMode := p.enterFn(async != nil, generator)
 	p.incRetsStk()
 
-	var args []Node
-	var typArgs Node
-	ahead := p.lexer.Peek()
-	if id != nil && ahead.value == T_ARROW && !ahead.afterLineTerm {
-		// async a => {}
-		args = make([]Node, 1)
-		args[0] = id
-	} else if fn {
-		args, typArgs, _, err = p.paramList(false, PK_INIT, true)
-		if err != nil {
-			return nil, err
-		}
-	} else {
-		// the arg check is skipped here, the correctness of args is guaranteed by
-		// below `argsToFormalParams`
-		p.checkName = false
-		scope.AddKind(SPK_FORMAL_PARAMS)
-		args, _, typArgs, _, err = p.argList(false, false, asyncLoc, false)
-		scope.EraseKind(SPK_FORMAL_PARAMS)
-		p.checkName = true
-		if err != nil {
-			return nil, err
-		}
-		if typArgs != nil && typArgs.Type() != N_TS_PARAM_INST {
-			if err := p.advanceIfSemi(true); err != nil {
-				return nil, err
-			}
-			return &ExprStmt{N_STMT_EXPR, p.finRng(rng), typArgs, false}, nil
-		}
+	params, typParams, _, err := p.paramList(false, PK_INIT, true)
+	if err != nil {
+		return nil, err
 	}
 
 	typAnnot, err := p.tsTypAnnot()
@@ -2645,130 +2633,39 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		ti.SetTypAnnot(typAnnot)
 	}
 
-	if generator {
-		p.lexer.AddMode(LM_GENERATOR)
+	paramNames, firstComplicated, err := p.collectNames(params)
+	if err != nil {
+		return nil, err
 	}
 
-	tok = p.lexer.Peek()
-	arrow := false
-	var arrowLoc span.Range
-	if tok.value == T_ARROW && !tok.afterLineTerm {
-		if !fn {
-			arrowLoc = p.lexer.Next().rng
-			arrow = true
-			scope.AddKind(SPK_ARROW)
-		} else {
-			return nil, p.errorTok(tok)
-		}
+	for _, paramName := range paramNames {
+		ref := NewRef()
+		ref.Id = paramName.(*Ident)
+		ref.BindKind = BK_PARAM
+		// duplicate-checking for params is enable in strict and delegated to below `checkParams`
+		p.addLocalBinding(nil, ref, false, ref.Id.val)
 	}
 
 	var body Node
 	tok = p.lexer.Peek()
-
-	var params []Node
-	var paramNames []Node
-	var firstComplicated span.Range
-	if fn || tok.value == T_BRACE_L || arrow {
-		if fn {
-			params = args
-		} else {
-			params, err = p.argsToParams(args)
-			if err != nil {
-				return nil, err
-			}
-		}
-
-		paramNames, firstComplicated, err = p.collectNames(params)
-		if err != nil {
+	if tok.value == T_BRACE_L {
+		if body, err = p.fnBody(); err != nil {
 			return nil, err
 		}
-
-		for _, paramName := range paramNames {
-			ref := NewRef()
-			ref.Id = paramName.(*Ident)
-			ref.BindKind = BK_PARAM
-			// duplicate-checking for params is enable in strict and delegated to below `checkParams`
-			p.addLocalBinding(nil, ref, false, ref.Id.val)
-		}
-
-		if tok.value == T_BRACE_L {
-			if body, err = p.fnBody(); err != nil {
-				return nil, err
-			}
-		} else if expr || arrow {
-			if body, err = p.expr(); err != nil {
-				return nil, err
-			}
-		} else if fn && !expr && tok.value == T_FUNC && tok.afterLineTerm && p.ts {
-			// ts func overloads:
-			// `function f(a:number)`
-			// `function f(): any {}`
-			if err = p.tsIsFnSigValid(fnRef.Id.val); err != nil {
-				return nil, err
-			}
-		} else if (tok.value == T_SEMI || tok.afterLineTerm || tok.value == T_EOF) && p.ts {
-			// AmbientFunctionDeclaration
-			// `declare function a();`
-		} else {
-			return nil, p.errorTok(tok)
-		}
-	} else if async != nil {
-		// this branch means the input is callExpr like:
-		// `async ({a: b = c})` callExpr
-		// `async* ({a: b = c})` binExpr
-		lhs := &Ident{N_NAME, asyncLoc, "async", false, asyncHasEscape, span.Range{}, true, p.newTypInfo(N_NAME)}
-
-		var exp Node
-		if generator {
-			var rhs Node
-			argsLen := len(args)
-			if argsLen == 0 {
-				return nil, p.errorTok(tok)
-			} else if argsLen == 1 {
-				rhs = args[0]
-			} else {
-				rhs = &SeqExpr{N_EXPR_SEQ, p.finRng(rng), args, span.Range{}}
-			}
-			exp = &BinExpr{N_EXPR_BIN, p.finRng(rng), T_MUL, genLoc, lhs, rhs, span.Range{}}
-		} else {
-			if err := p.checkArgs(args, false, true); err != nil {
-				return nil, err
-			}
-			ti := p.newTypInfo(N_EXPR_CALL)
-			if ti != nil {
-				// typArgs is produced by `argList` in this branch, so it's required
-				// to do a typeParam to typeArg transformation
-				if err = p.tsCheckTypArgs(typArgs); err != nil {
-					return nil, err
-				}
-				ti.SetTypArgs(typArgs)
-			}
-			exp = &CallExpr{N_EXPR_CALL, p.finRng(rng), lhs, args, false, span.Range{}, ti}
-		}
-
-		if !expr {
-			binExpr, err := p.binExpr(exp, 0, false, false, false, false)
-			if err != nil {
-				return nil, err
-			}
-
-			seq, err := p.seqExpr(binExpr, false)
-			if err != nil {
-				return nil, err
-			}
-			if err = p.advanceIfSemi(true); err != nil {
-				return nil, err
-			}
-			return &ExprStmt{N_STMT_EXPR, p.finRng(rng), seq, false}, nil
+	} else if !expr && tok.value == T_FUNC && tok.afterLineTerm && p.ts {
+		// ts func overloads:
+		// `function f(a:number)`
+		// `function f(): any {}`
+		if err = p.tsIsFnSigValid(fnRef.Id.val); err != nil {
+			return nil, err
 		}
-		return exp, nil
+	} else if (tok.value == T_SEMI || tok.afterLineTerm || tok.value == T_EOF) && p.ts {
+		// AmbientFunctionDeclaration
+		// `declare function a();`
 	} else {
 		return nil, p.errorTok(tok)
 	}
-
-	if generator {
-		p.lexer.PopMode()
-	}
+	p.leaveFn(fnMode)
 
 	isStrict := scope.IsKind(SPK_STRICT)
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
@@ -2808,25 +2705,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	s := p.symtab.LeaveScope()
 
 	if ti != nil {
-		if !fn {
-			typArgs, err = p.tsTypArgsToTypParams(typArgs)
-			if err != nil {
-				return nil, err
-			}
-		}
-		ti.SetTypParams(typArgs)
-	}
-
-	if arrow {
-		fn := &ArrowFn{N_EXPR_ARROW, p.finRng(rng), arrowLoc, async != nil, params, body, body.Type() != N_STMT_BLOCK, p.decRetsStk(), span.Range{}, ti}
-		s.Node = fn
-		if expr {
-			return fn, nil
-		}
-		if err := p.advanceIfSemi(true); err != nil {
-			return nil, err
-		}
-		return &ExprStmt{N_STMT_EXPR, p.finRng(rng), fn, false}, nil
+		ti.SetTypParams(typParams)
 	}
 
 	typ := N_STMT_FN
@@ -2840,14 +2719,6 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	}
 	s.Node = fnDec
 
-	if expr && p.lexer.Peek().value == T_PAREN_L {
-		node, _, err := p.callExpr(fnDec, true, false, span.Range{}, false)
-		if err != nil {
-			return nil, err
-		}
-		return node, nil
-	}
-
 	if !expr && p.ts {
 		if body == nil {
 			p.lastTsFnSig = fnDec
@@ -2858,6 +2729,147 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	return fnDec, nil
 }
 
+// parses the expressions which are introduced by `async` and are not function expressions:
+//
+// ```
+// async a => {}
+// async (a) => {}
+// async (a)
+// ```
+func (p *Parser) asyncExpr(notColon bool) (Node, error) {
+	tok := p.lexer.Next()
+	rng := tok.rng
+	escaped := tok.ContainsEscape()
+
+	ahead := p.lexer.Peek()
+	if !p.aheadIsArgList(ahead) {
+		if escaped {
+			return nil, p.errorAtLoc(rng, ERR_ESCAPE_IN_KEYWORD)
+		}
+		p.checkName = false
+		id, err := p.ident(nil, true)
+		p.checkName = true
+		if err != nil {
+			return nil, err
+		}
+		ahead = p.lexer.Peek()
+		if ahead.value != T_ARROW || ahead.afterLineTerm {
+			return nil, p.errorTok(ahead)
+		}
+		return p.arrowFn(rng, []Node{id}, nil, nil, nil, true)
+	}
+
+	// the arg check is skipped here, the correctness of args is guaranteed by
+	// below `argsToParams` or `checkArgs`
+	scope := p.symtab.EnterScope(false, false, false)
+	scope.AddKind(SPK_PAREN)
+	p.checkName = false
+	args, tailingComma, typArgs, _, err := p.argList(false, true, rng, false)
+	p.checkName = true
+	p.symtab.LeaveScope()
+	if err != nil {
+		return nil, err
+	}
+	if typArgs != nil && typArgs.Type() != N_TS_PARAM_INST {
+		// `async < a`
+		return typArgs, nil
+	}
+
+	var params []Node
+	var paramsErr error
+	var typAnnot Node
+	if p.aheadIsArrow(notColon) {
+		params, paramsErr = p.argsToParams(args)
+		if paramsErr == nil && !notColon {
+			typAnnot, err = p.tsTypAnnot()
+			if err != nil {
+				return nil, err
+			}
+		}
+	}
+
+	ahead = p.lexer.Peek()
+	if ahead.value == T_ARROW && !ahead.afterLineTerm {
+		if escaped {
+			return nil, p.errorAtLoc(rng, ERR_ESCAPE_IN_KEYWORD)
+		}
+		if p.awaitPos > rng.Lo {
+			return nil, p.errorAtLoc(span.Range{Lo: p.awaitPos, Hi: p.awaitPos}, ERR_AWAIT_IN_FORMAL_PARAMS)
+		}
+		if p.yieldPos > rng.Lo {
+			return nil, p.errorAtLoc(span.Range{Lo: p.yieldPos, Hi: p.yieldPos}, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, "yield"))
+		}
+		if paramsErr != nil {
+			return nil, paramsErr
+		}
+		for i, arg := range args {
+			if arg.Type() == N_SPREAD && (i < len(args)-1 || !tailingComma.Empty()) {
+				return nil, p.errorAtLoc(arg.Range(), ERR_REST_ELEM_MUST_LAST)
+			}
+		}
+		typParams, err := p.tsTypArgsToTypParams(typArgs)
+		if err != nil {
+			return nil, err
+		}
+		ti := p.newTypInfo(N_EXPR_ARROW)
+		if ti != nil {
+			ti.SetTypAnnot(typAnnot)
+			ti.SetTypParams(typParams)
+		}
+		return p.arrowFn(rng, nil, params, ti, scope, true)
+	}
+
+	if typAnnot != nil {
+		return nil, p.errorAtLoc(typAnnot.Range(), ERR_UNEXPECTED_TOKEN)
+	}
+	if err := p.checkArgs(args, true, false); err != nil {
+		return nil, err
+	}
+	ti := p.newTypInfo(N_EXPR_CALL)
+	if ti != nil {
+		if err = p.tsCheckTypArgs(typArgs); err != nil {
+			return nil, err
+		}
+		ti.SetTypArgs(typArgs)
+	}
+	callee := &Ident{N_NAME, rng, "async", false, escaped, span.Range{}, true, p.newTypInfo(N_NAME)}
+	return &CallExpr{N_EXPR_CALL, p.finRng(rng), callee, args, false, span.Range{}, ti}, nil
+}
+
+// reports whether the args in parens just parsed are possibly the params of an arrow function
+func (p *Parser) aheadIsArrow(notColon bool) bool {
+	ahead := p.lexer.Peek()
+	return ahead.value == T_ARROW && !ahead.afterLineTerm || p.ts && !notColon && ahead.value == T_COLON
+}
+
+// the lexer modes and the positions which depend on the function being parsed
+type fnState struct {
+	mode     LexerModeKind
+	awaitPos uint32
+	yieldPos uint32
+	identPos uint32
+}
+
+// switches the lexer to the function which is about to be parsed, the result should be
+// passed to `leaveFn` after the function has been parsed
+func (p *Parser) enterFn(async, generator bool) fnState {
+	st := fnState{p.lexer.CurMode().kind & (LM_ASYNC | LM_GENERATOR | LM_STRICT), p.awaitPos, p.yieldPos, p.awaitIdentPos}
+	p.lexer.EraseMode(LM_ASYNC | LM_GENERATOR)
+	if async {
+		p.lexer.AddMode(LM_ASYNC)
+	}
+	if generator {
+		p.lexer.AddMode(LM_GENERATOR)
+	}
+	return st
+}
+
+func (p *Parser) leaveFn(st fnState) {
+	p.lexer.EraseMode(LM_ASYNC | LM_GENERATOR | LM_STRICT)
+	p.lexer.AddMode(st.mode)
+	p.awaitPos, p.yieldPos, p.awaitIdentPos = st.awaitPos, st.yieldPos, st.identPos
+}
+
 func (p *Parser) collectNames(nodes []Node) (names []Node, firstComplicated span.Range, err error) {
 	names = make([]Node, 0, 5)
 	var ns []Node
@@ -4056,6 +4068,7 @@ func (p *Parser) aheadIsYield() bool {
 func (p *Parser) yieldExpr() (Node, error) {
 	rng := p.rng()
 	tok := p.lexer.Next()
+	p.yieldPos = tok.rng.Lo
 
 	if p.scope().IsKind(SPK_FORMAL_PARAMS) {
 		return nil, p.errorAt(tok.value, tok.rng, ERR_YIELD_IN_FORMAL_PARAMS)
@@ -4105,7 +4118,7 @@ func (p *Parser) assignExpr(checkLhs bool, notGT bool, notHook bool, notColon bo
 
 	tok := p.lexer.Peek()
 	if lhs.Type() == N_NAME && tok.value == T_ARROW && !tok.afterLineTerm {
-		fn, err := p.arrowFn(rng, []Node{lhs}, nil, nil)
+		fn, err := p.arrowFn(rng, []Node{lhs}, nil, nil, nil, false)
 		if err != nil {
 			return nil, err
 		}
@@ -4283,6 +4296,7 @@ func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 		return nil, p.errorAt(tok.value, tok.rng, ERR_AWAIT_OUTSIDE_ASYNC)
 	}
 
+	p.awaitPos = rng.Lo
 	arg, err := p.unaryExpr(nil, span.Range{}, false)
 	if err != nil {
 		return nil, err
@@ -5668,6 +5682,9 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 	case T_NAME:
 		loc := tok.rng
 		if p.aheadIsAsync(tok, false, false) {
+			if p.lexer.Peek2nd().value != T_FUNC {
+				return p.asyncExpr(notColon)
+			}
 			if tok.ContainsEscape() {
 				return nil, p.errorAt(tok.value, tok.rng, ERR_ESCAPE_IN_KEYWORD)
 			}
@@ -5682,6 +5699,9 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 
 		p.lexer.Next()
 		name := p.TokText(tok)
+		if name == "await" {
+			p.awaitIdentPos = loc.Lo
+		}
 		ahead := p.lexer.Peek()
 		// `ahead.value != T_ARROW` is used to skip checking name when it appears in the param list of arrow expr
 		// for `eval => 42` we should report binding-reserved-word error instead of unexpected-reserved-word error
@@ -5767,7 +5787,8 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 	return nil, p.errorTok(tok)
 }
 
-func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo) (Node, error) {
+// `paramsScope` is the temporary scope in which the params had been parsed
+func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo, paramsScope *Scope, async bool) (Node, error) {
 	var err error
 	if params == nil {
 		params, err = p.argsToParams(args)
@@ -5776,9 +5797,24 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 		}
 	}
 
+	if p.awaitPos > rng.Lo {
+		return nil, p.errorAtLoc(span.Range{Lo: p.awaitPos, Hi: p.awaitPos}, ERR_AWAIT_IN_FORMAL_PARAMS)
+	}
+	if p.yieldPos > rng.Lo {
+		return nil, p.errorAtLoc(span.Range{Lo: p.yieldPos, Hi: p.yieldPos}, ERR_YIELD_IN_FORMAL_PARAMS)
+	}
+	awaitIdentPos := p.awaitIdentPos
+
 	arrowLoc := p.lexer.Next().rng
 	ps := p.scope()
 	scope := p.symtab.EnterScope(true, true, true)
+	if async {
+		scope.AddKind(SPK_ASYNC)
+	}
+	if paramsScope != nil {
+		paramsScope.moveDownTo(scope)
+	}
+	fnMode := p.enterFn(async, false)
 	p.incRetsStk()
 
 	paramNames, firstComplicated, err := p.collectNames(params)
@@ -5812,6 +5848,7 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 		if err != nil {
 			return nil, err
 		}
+		p.leaveFn(fnMode)
 
 		if _, err := p.isExprOpening(true); err != nil {
 			return nil, err
@@ -5824,6 +5861,7 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 		if err != nil {
 			return nil, err
 		}
+		p.leaveFn(fnMode)
 	}
 
 	isStrict := scope.IsKind(SPK_STRICT)
@@ -5832,8 +5870,12 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 		return nil, err
 	}
 
+	if async && awaitIdentPos > rng.Lo {
+		return nil, p.errorAtLoc(span.Range{Lo: awaitIdentPos, Hi: awaitIdentPos}, ERR_AWAIT_IN_FORMAL_PARAMS)
+	}
+
 	s := p.symtab.LeaveScope()
-	n := &ArrowFn{N_EXPR_ARROW, p.finRng(rng), arrowLoc, false, params, body, body.Type() != N_STMT_BLOCK, p.decRetsStk(), span.Range{}, ti}
+	n := &ArrowFn{N_EXPR_ARROW, p.finRng(rng), arrowLoc, async, params, body, body.Type() != N_STMT_BLOCK, p.decRetsStk(), span.Range{}, ti}
 	s.Node = n
 	return n, nil
 }
@@ -5866,14 +5908,16 @@ func (p *Parser) parenExpr(typArgs Node, notColon bool) (Node, error) {
 		return nil, err
 	}
 
-	params, paramsErr := p.argsToParams(args)
-	allowTypAnnot := paramsErr == nil
-
+	var params []Node
+	var paramsErr error
 	var typAnnot Node
-	if allowTypAnnot && !notColon {
-		typAnnot, err = p.tsTypAnnot()
-		if err != nil {
-			return nil, err
+	if p.aheadIsArrow(notColon) {
+		params, paramsErr = p.argsToParams(args)
+		if paramsErr == nil && !notColon {
+			typAnnot, err = p.tsTypAnnot()
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 
@@ -5889,7 +5933,7 @@ func (p *Parser) parenExpr(typArgs Node, notColon bool) (Node, error) {
 		if paramsErr != nil {
 			return nil, paramsErr
 		}
-		return p.arrowFn(rng, nil, params, ti)
+		return p.arrowFn(rng, nil, params, ti, scope, false)
 	}
 
 	// `():number` is illegal
@@ -6205,6 +6249,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 	}
 
 	fnLoc := p.rng()
+	fnMode := p.enterFn(async, gen)
 	params, typParams, _, err := p.paramList(false, kind, true)
 	if err != nil {
 		return nil, err
@@ -6249,10 +6294,6 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 		}
 	}
 
-	if gen {
-		p.lexer.AddMode(LM_GENERATOR)
-	}
-
 	var body Node
 	ahead := p.lexer.Peek()
 	opt := false
@@ -6261,13 +6302,11 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 			return nil, p.errorAtLoc(rng, ERR_ABSTRACT_METHOD_WITH_IMPL)
 		}
 		body, err = p.fnBody()
-		if gen {
-			p.lexer.EraseMode(LM_GENERATOR)
-		}
 		if err != nil {
 			return nil, err
 		}
 	}
+	p.leaveFn(fnMode)
 
 	isStrict := scope.IsKind(SPK_STRICT)
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 050e26f..4b9eadc 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -175,6 +175,15 @@ func (s *Scope) EraseKind(kind ScopeKind) *Scope {
 	return s
 }
 
+// moves the children of the scope to the scope `to`
+func (s *Scope) moveDownTo(to *Scope) {
+	for _, scope := range s.Down {
+		scope.Up = to
+		to.Down = append(to.Down, scope)
+	}
+	s.Down = nil
+}
+
 func (s *Scope) Local(name string) *Ref {
 	return s.Refs[name]
 }
-- 
2.43.0


From ac83f5d58b8ac6b586b7d346a60782b713a8f2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:37 +0000
Subject: [PATCH 19/44] fix: in and const accepted as names, let before a line
 break or in misread, prefix update operator lost, octal literal after a
 strict directive accepted

---
 ecma/parser/lexer.go  | 25 +++++++++++++++++++++++++
 ecma/parser/parser.go | 39 ++++++++++++++++++++++++++++++---------
 2 files changed, 55 insertions(+), 9 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 721e178..7c3f1c0 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -675,10 +675,35 @@ func (l *Lexer) aheadIsRegexp() bool {
 		return true
 	}
 
+	if prev == T_NAME && l.prevIsIn() {
+		return true
+	}
+
 	be := TokenKinds[prev].BeforeExpr
 	return be
 }
 
+// reports whether the prev read token is the `in` operator
+func (l *Lexer) prevIsIn() bool {
+	rng := l.state.prtRng
+	if l.src.RngText(rng) != "in" {
+		return false
+	}
+	// `a.in`
+	i := int(rng.Lo)
+	for i > 0 {
+		switch l.src.RngText(span.Range{Lo: uint32(i - 1), Hi: uint32(i)}) {
+		case " ", "\t", "\n", "\r":
+			i--
+			continue
+		case ".":
+			return false
+		}
+		break
+	}
+	return true
+}
+
 func (l *Lexer) maybeLsh(ofst uint32) bool {
 	_, ok := l.maybeLshPos[ofst]
 	return ok
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 6e27d7f..b688c5d 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3045,9 +3045,7 @@ func (p *Parser) stmts(terminal TokenValue) ([]Node, error) {
 			if prologue != -1 && (scope.IsKind(SPK_FUNC) || scope.IsKind(SPK_GLOBAL)) {
 				strict, dir := p.isDirective(stmt)
 				if !dir {
-					if prologue == 0 {
-						prologue = -1
-					}
+					prologue = -1
 				} else {
 					stmt.(*ExprStmt).dir = true
 				}
@@ -3057,6 +3055,10 @@ func (p *Parser) stmts(terminal TokenValue) ([]Node, error) {
 					// here we use `ahead.value != T_BRACE_R` to prevent accidentally change
 					// the upper lexer mode
 					p.enterStrict(ahead.value != T_BRACE_R)
+					// the token ahead had been read before the strict mode was entered
+					if ahead.value == T_NUM && isLegacyOctal(p.TokText(ahead)) {
+						return nil, p.errorAtLoc(ahead.rng, ERR_LEGACY_OCTAL_IN_STRICT_MODE)
+					}
 
 					// lookbehind to check that exprs before the 'use strict' directive
 					if prologue > 0 {
@@ -3069,7 +3071,6 @@ func (p *Parser) stmts(terminal TokenValue) ([]Node, error) {
 								}
 							}
 						}
-						prologue = -1
 					}
 				}
 				if dir {
@@ -3150,11 +3151,15 @@ func (p *Parser) aheadIsVarDec(tok *Token) (bool, TokenValue) {
 		// an additional lookahead is needed to judge the various:
 		// - `let + 1`
 		// - `let a`
-		ahead := p.lexer.PeekGrow()
+		// - `let in a`
+		ahead := p.lexer.Peek2nd()
 		av := ahead.value
-		if !ahead.afterLineTerm && (av == T_NAME ||
+		if ahead.afterLineTerm && v == T_LET && p.scope().IsKind(SPK_INTERIM) && av != T_BRACKET_L {
+			return false, T_ILLEGAL
+		}
+		if v == T_CONST || (av == T_NAME && !IsName(ahead, "in", false)) ||
 			(av > T_CTX_KEYWORD_BEGIN && av < T_CTX_KEYWORD_END) ||
-			av == T_BRACE_L || av == T_BRACKET_L) {
+			av == T_BRACE_L || av == T_BRACKET_L {
 			return true, v
 		}
 	}
@@ -3310,6 +3315,15 @@ func (p *Parser) isProhibitedName(scope *Scope, name string, withStrict bool, lV
 	return scope.IsKind(SPK_ASYNC) && name == "await"
 }
 
+// reports whether the name is reserved in any mode, tokens of these names are `T_NAME`
+func isReservedName(name string) bool {
+	return name == "in" || name == "const"
+}
+
+func isLegacyOctal(text string) bool {
+	return len(text) > 1 && text[0] == '0' && text[1] >= '0' && text[1] <= '9'
+}
+
 func (p *Parser) identStrict(scope *Scope, forceStrict bool, binding bool) (Node, error) {
 	if scope == nil {
 		scope = p.scope()
@@ -3324,6 +3338,9 @@ func (p *Parser) identStrict(scope *Scope, forceStrict bool, binding bool) (Node
 	name := p.TokText(tok)
 	rng := p.finRng(tok.rng)
 
+	if tv == T_NAME && isReservedName(name) {
+		return nil, p.errorAtLoc(rng, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, name))
+	}
 	if p.isProhibitedName(scope, name, true, false, false, forceStrict) {
 		if binding {
 			return nil, p.errorAtLoc(rng, fmt.Sprintf(ERR_TPL_BINDING_RESERVED_WORD, name))
@@ -4340,7 +4357,7 @@ func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (
 		}
 
 		scope := p.scope()
-		if scope.IsKind(SPK_STRICT) && tok.value == T_DELETE && arg.Type() == N_NAME {
+		if scope.IsKind(SPK_STRICT) && op == T_DELETE && UnParen(arg).Type() == N_NAME {
 			return nil, p.errorAtLoc(arg.Range(), ERR_DELETE_LOCAL_IN_STRICT)
 		}
 
@@ -4389,6 +4406,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 	rng := p.rng()
 	tok := p.lexer.Peek()
 	if tok.value == T_INC || tok.value == T_DEC {
+		op := tok.value
 		p.lexer.Next()
 		arg, err := p.unaryExpr(nil, span.Range{}, notColon)
 		if err != nil {
@@ -4397,7 +4415,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 		if !p.isSimpleLVal(arg, false, false, true, false) {
 			return nil, p.errorAtLoc(arg.Range(), ERR_ASSIGN_TO_RVALUE)
 		}
-		ud := &UpdateExpr{N_EXPR_UPDATE, p.finRng(rng), tok.value, true, arg, span.Range{}}
+		ud := &UpdateExpr{N_EXPR_UPDATE, p.finRng(rng), op, true, arg, span.Range{}}
 		arg, err = p.tsTypAssert(ud, typArgs)
 		if err != nil {
 			return nil, err
@@ -5702,6 +5720,9 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 		if name == "await" {
 			p.awaitIdentPos = loc.Lo
 		}
+		if isReservedName(name) {
+			return nil, p.errorAtLoc(p.finRng(loc), fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, name))
+		}
 		ahead := p.lexer.Peek()
 		// `ahead.value != T_ARROW` is used to skip checking name when it appears in the param list of arrow expr
 		// for `eval => 42` we should report binding-reserved-word error instead of unexpected-reserved-word error
-- 
2.43.0


From 9f1ec27b5f4351c1129501448d2c92a46c012c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:43 +0000
Subject: [PATCH 20/44] fix: operator precedence lost after a tighter operator,
 return swallows two semicolons, static blocks, constructors, super,
 new.target and reserved names in classes and functions misjudged

---
 ecma/parser/parser.go | 107 +++++++++++++++++++++++++++---------------
 ecma/parser/symtab.go |  18 +++++++
 2 files changed, 86 insertions(+), 39 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index b688c5d..86c1a89 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1173,6 +1173,8 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 	}
 	if super != nil {
 		scope.AddKind(SPK_CLASS_HAS_SUPER)
+	} else {
+		scope.EraseKind(SPK_CLASS_HAS_SUPER)
 	}
 
 	body, err := p.classBody(declare, super != nil)
@@ -1254,7 +1256,7 @@ func (p *Parser) classBody(declare bool, hasSuper bool) (Node, error) {
 		if elem.Type() == N_METHOD {
 			m := elem.(*Method)
 			// `!m.Declare` is used to skip the constructor overloads
-			if !m.Declare() && p.isName(m.key, "constructor", false, true) {
+			if !m.Declare() && !m.static && !m.computed && p.isName(m.key, "constructor", false, true) {
 				if hasCtor {
 					return nil, p.errorAtLoc(m.key.Range(), ERR_CTOR_DUP)
 				}
@@ -1560,7 +1562,7 @@ func (p *Parser) classElem(inDeclare bool) (Node, error) {
 		kd := PK_INIT
 		if p.aheadIsArgList(ahead) {
 			kd = PK_METHOD
-			if name == "constructor" {
+			if name == "constructor" && !static {
 				kd = PK_CTOR
 			}
 
@@ -1670,10 +1672,12 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 		if !abstract.Empty() {
 			return nil, p.errorAtLoc(assignLoc, ERR_ABSTRACT_PROP_WITH_INIT)
 		}
+		fnMode := p.enterFn(false, false)
 		value, err = p.assignExpr(true, false, false, false)
 		if err != nil {
 			return nil, err
 		}
+		p.leaveFn(fnMode)
 	} else if p.aheadIsArgList(tok) {
 		if !static.Empty() {
 			rng = static
@@ -1709,9 +1713,9 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 	}
 
 	isStatic := !static.Empty()
-	if isStatic && p.isName(key, "prototype", false, true) {
+	if isStatic && compute.Empty() && p.isName(key, "prototype", false, true) {
 		return nil, p.errorAtLoc(key.Range(), ERR_STATIC_PROP_PROTOTYPE)
-	} else if p.isName(key, "constructor", false, true) {
+	} else if compute.Empty() && p.isName(key, "constructor", false, true) {
 		return nil, p.errorAtLoc(key.Range(), ERR_CTOR_CANNOT_BE_Field)
 	}
 
@@ -1730,11 +1734,18 @@ func (p *Parser) classElemName() (Node, span.Range, error) {
 }
 
 func (p *Parser) staticBlock(static span.Range) (Node, error) {
-	block, err := p.blockStmt(true, SPK_NONE)
+	scope := p.symtab.EnterScope(true, false, true)
+	scope.AddKind(SPK_STATIC_BLOCK)
+	fnMode := p.enterFn(false, false)
+	block, err := p.blockStmt(false, SPK_NONE)
 	if err != nil {
 		return nil, err
 	}
-	return &StaticBlock{N_STATIC_BLOCK, p.finRng(static), block.body, p.newTypInfo(N_STATIC_BLOCK)}, nil
+	p.leaveFn(fnMode)
+	s := p.symtab.LeaveScope()
+	n := &StaticBlock{N_STATIC_BLOCK, p.finRng(static), block.body, p.newTypInfo(N_STATIC_BLOCK)}
+	s.Node = n
+	return n, nil
 }
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-statements-and-declarations.html#prod-EmptyStatement
@@ -1936,12 +1947,14 @@ func (p *Parser) retStmt() (Node, error) {
 		}
 	}
 
-	if err := p.advanceIfSemi(!closed); err != nil {
-		return nil, err
+	if !closed {
+		if err := p.advanceIfSemi(true); err != nil {
+			return nil, err
+		}
 	}
 
-	scope := p.scope()
-	if !scope.IsKind(SPK_FUNC) && !scope.IsKind(SPK_FUNC_INDIRECT) {
+	fn := p.scope().UpperFn()
+	if !fn.IsKind(SPK_FUNC) || fn.IsKind(SPK_CLASS) || fn.IsKind(SPK_STATIC_BLOCK) && !fn.IsKind(SPK_ARROW) {
 		return nil, p.errorAtLoc(rng, ERR_ILLEGAL_RETURN)
 	}
 
@@ -2573,8 +2586,16 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 
 	ps := p.scope()
 	idScope := ps
-	if !ps.IsKind(SPK_STRICT) {
-		idScope = ps.OuterFn()
+	if expr {
+		// the name of function expression is bound in the function itself
+		idScope = NewScope()
+		idScope.AddKind(ps.Kind & SPK_STRICT)
+		if async != nil {
+			idScope.AddKind(SPK_ASYNC)
+		}
+		if generator {
+			idScope.AddKind(SPK_GENERATOR)
+		}
 	}
 
 	var id Node
@@ -2671,7 +2692,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
 	if id != nil {
 		name := id.(*Ident).val
-		if p.isProhibitedName(idScope, name, isStrict, true, false, false) {
+		if p.isProhibitedName(idScope, name, isStrict, true, false, isStrict) {
 			return nil, p.errorAtLoc(id.Range(), fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, name))
 		}
 	}
@@ -3312,7 +3333,10 @@ func (p *Parser) isProhibitedName(scope *Scope, name string, withStrict bool, lV
 	if (strict && lVal || field) && (name == "eval" || name == "arguments") {
 		return true
 	}
-	return scope.IsKind(SPK_ASYNC) && name == "await"
+	if name == "yield" {
+		return scope.IsKind(SPK_GENERATOR)
+	}
+	return name == "await" && (scope.IsKind(SPK_ASYNC) || scope.IsKind(SPK_STATIC_BLOCK))
 }
 
 // reports whether the name is reserved in any mode, tokens of these names are `T_NAME`
@@ -3338,7 +3362,7 @@ func (p *Parser) identStrict(scope *Scope, forceStrict bool, binding bool) (Node
 	name := p.TokText(tok)
 	rng := p.finRng(tok.rng)
 
-	if tv == T_NAME && isReservedName(name) {
+	if tv == T_NAME && isReservedName(name) || tv == T_AWAIT && p.feat&FEAT_MODULE != 0 && scope.IsKind(SPK_STRICT) && !scope.IsKind(SPK_ASYNC) {
 		return nil, p.errorAtLoc(rng, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, name))
 	}
 	if p.isProhibitedName(scope, name, true, false, false, forceStrict) {
@@ -3817,9 +3841,14 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 		key = &NumLit{N_LIT_NUM, p.finRng(rng), span.Range{}}
 	} else if tv == T_BRACKET_L {
 		computeLoc = tok.rng
-		scope.AddKind(SPK_PROP_NAME)
+		kind := scope.Kind
+		scope.AddKind(SPK_PROP_NAME).EraseKind(SPK_NOT_IN)
+		if scope.IsKind(SPK_CLASS) {
+			// the computed keys of class are evaluated in the function which contains the class
+			scope.Kind |= scope.Up.Kind & (SPK_ASYNC | SPK_GENERATOR | SPK_STATIC_BLOCK)
+		}
 		name, err := p.assignExpr(true, false, false, false)
-		scope.EraseKind(SPK_PROP_NAME)
+		scope.Kind = kind
 		if err != nil {
 			return nil, span.Range{}, err
 		}
@@ -4511,9 +4540,7 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 		if id.val != "target" {
 			return nil, p.errorAtLoc(id.Range(), ERR_INVALID_META_PROP)
 		}
-		if !(scope.IsKind(SPK_CLASS) || scope.IsKind(SPK_CLASS_INDIRECT) ||
-			scope.IsKind(SPK_ARROW) && scope.IsKind(SPK_FUNC_INDIRECT) ||
-			(!scope.IsKind(SPK_ARROW) && (scope.IsKind(SPK_FUNC) || scope.IsKind(SPK_FUNC_INDIRECT)))) {
+		if scope.thisScope().IsKind(SPK_GLOBAL) {
 			return nil, p.errorAtLoc(rng, ERR_META_PROP_OUTSIDE_FN)
 		}
 
@@ -4588,9 +4615,7 @@ func (p *Parser) checkCallee(callee Node, nextLoc span.Range) error {
 	scope := p.scope()
 	switch callee.Type() {
 	case N_EXPR_ARROW:
-		if !scope.IsKind(SPK_PAREN) {
-			return p.errorAtLoc(nextLoc, ERR_UNEXPECTED_TOKEN)
-		}
+		return p.errorAtLoc(nextLoc, ERR_UNEXPECTED_TOKEN)
 	case N_SUPER:
 		if !scope.IsKind(SPK_CTOR) || !scope.IsKind(SPK_CLASS_HAS_SUPER) {
 			return p.errorAtLoc(callee.Range(), ERR_SUPER_CALL_OUTSIDE_CTOR)
@@ -5512,8 +5537,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		aheadOp := ahead.IsBin(notIn, ts)
 		kind = TokenKinds[aheadOp]
 		for aheadOp != T_ILLEGAL && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
-			pcd = kind.Pcd
-			rhs, err = p.binExpr(rhs, pcd, logic, nullish, notGT, false)
+			rhs, err = p.binExpr(rhs, kind.Pcd, logic, nullish, notGT, false)
 			if err != nil {
 				return nil, err
 			}
@@ -5726,7 +5750,8 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 		ahead := p.lexer.Peek()
 		// `ahead.value != T_ARROW` is used to skip checking name when it appears in the param list of arrow expr
 		// for `eval => 42` we should report binding-reserved-word error instead of unexpected-reserved-word error
-		if p.checkName && ahead.value != T_ARROW && !ahead.afterLineTerm && p.isProhibitedName(nil, name, true, false, false, false) {
+		if p.checkName && ahead.value != T_ARROW && !ahead.afterLineTerm && p.isProhibitedName(nil, name, true, false, false, false) &&
+			!(name == "yield" && tok.ContainsEscape() && !p.scope().IsKind(SPK_STRICT)) {
 			if tok.ContainsEscape() {
 				return nil, p.errorAtLoc(p.finRng(loc), ERR_ESCAPE_IN_KEYWORD)
 			}
@@ -5767,8 +5792,7 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 		sup := p.lexer.Next()
 
 		ahead := p.lexer.Peek()
-		if !scope.IsKind(SPK_CLASS) && !scope.IsKind(SPK_CLASS_INDIRECT) && !scope.IsKind(SPK_METHOD) ||
-			scope.IsKind(SPK_PROP_NAME) {
+		if ts := scope.thisScope(); !ts.IsKind(SPK_CLASS) && !ts.IsKind(SPK_METHOD) && !ts.IsKind(SPK_STATIC_BLOCK) {
 			em := ERR_SUPER_OUTSIDE_CLASS
 			if ahead.value == T_PAREN_L {
 				em = ERR_SUPER_CALL_OUTSIDE_CTOR
@@ -6199,18 +6223,10 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 		rng = p.rng()
 	}
 
-	scope := p.symtab.EnterScope(true, false, true)
-	scope.AddKind(SPK_METHOD)
-	if kind == PK_CTOR && !static {
-		scope.AddKind(SPK_CTOR)
-	}
-	p.incRetsStk()
-
 	// depart `gen` and `async` here since below stmt is legal:
 	// `class a{ async *a() {} }`
 	if async {
 		p.lexer.Next()
-		scope.AddKind(SPK_ASYNC)
 
 		ahead := p.lexer.Peek()
 		gen = ahead.value == T_MUL
@@ -6219,7 +6235,6 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 		}
 	}
 	if gen {
-		scope.AddKind(SPK_GENERATOR)
 		p.lexer.Next()
 	}
 
@@ -6258,7 +6273,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 	}
 
 	ctor := false
-	if p.isName(key, "constructor", false, true) && compute.Empty() {
+	if inclass && !static && p.isName(key, "constructor", false, true) && compute.Empty() {
 		if kind == PK_GETTER || kind == PK_SETTER {
 			return nil, p.errorAtLoc(key.Range(), ERR_CTOR_CANNOT_HAVE_MODIFIER)
 		} else if async {
@@ -6269,6 +6284,20 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 		ctor = true
 	}
 
+	// the key belongs to the scope in which the method is defined
+	scope := p.symtab.EnterScope(true, false, true)
+	scope.AddKind(SPK_METHOD)
+	if kind == PK_CTOR && !static {
+		scope.AddKind(SPK_CTOR)
+	}
+	if async {
+		scope.AddKind(SPK_ASYNC)
+	}
+	if gen {
+		scope.AddKind(SPK_GENERATOR)
+	}
+	p.incRetsStk()
+
 	fnLoc := p.rng()
 	fnMode := p.enterFn(async, gen)
 	params, typParams, _, err := p.paramList(false, kind, true)
@@ -6389,7 +6418,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 	}
 
 	if inclass {
-		if static && p.isName(key, "prototype", false, true) {
+		if static && compute.Empty() && p.isName(key, "prototype", false, true) {
 			return nil, p.errorAtLoc(key.Range(), ERR_STATIC_PROP_PROTOTYPE)
 		}
 
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 4b9eadc..35ae486 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -39,6 +39,7 @@ const (
 	SPK_TS_MODULE_INDIRECT
 	SPK_TS_INTERFACE
 	SPK_TS_MAY_INTRINSIC
+	SPK_STATIC_BLOCK
 )
 
 type BindKind uint8
@@ -199,6 +200,20 @@ func (s *Scope) UpperFn() *Scope {
 	return nil
 }
 
+// the nearest scope which binds `this`, `super` and `new.target`
+func (s *Scope) thisScope() *Scope {
+	scope := s
+	for !scope.IsKind(SPK_GLOBAL) {
+		// the computed keys of class belong to the scope which contains the class
+		if scope.IsKind(SPK_CLASS) && !scope.IsKind(SPK_PROP_NAME) ||
+			scope.IsKind(SPK_FUNC) && !scope.IsKind(SPK_CLASS) && !scope.IsKind(SPK_ARROW) {
+			break
+		}
+		scope = scope.Up
+	}
+	return scope
+}
+
 func (s *Scope) UpperCls() *Scope {
 	scope := s
 	for scope != nil {
@@ -587,6 +602,9 @@ func (s *SymTab) EnterScope(fn bool, arrow bool, settled bool) *Scope {
 		if s.Cur.IsKind(SPK_CTOR) {
 			scope.Kind |= SPK_CTOR
 		}
+		if s.Cur.IsKind(SPK_STATIC_BLOCK) {
+			scope.Kind |= SPK_STATIC_BLOCK
+		}
 	}
 
 	s.Scopes[scope.Id] = scope
-- 
2.43.0


From 0391b057d018331fe2d142cd7a1fbc9863244254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:11 +0000
Subject: [PATCH 21/44] fix: duplicated lexical, var and function declarations
 accepted or rejected against the scope rules, class expression names leak

---
 ecma/parser/parser.go |  28 +++++++++---
 ecma/parser/symtab.go | 102 +++++++++++++++++++++++++++++++-----------
 2 files changed, 98 insertions(+), 32 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 86c1a89..85dccea 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -223,6 +223,7 @@ func (p *Parser) Prog() (Node, error) {
 
 	scope := p.scope()
 	scope.AddKind(SPK_GLOBAL)
+	scope.module = p.feat&FEAT_MODULE != 0
 	if p.feat&FEAT_GLOBAL_ASYNC != 0 {
 		scope.AddKind(SPK_ASYNC)
 	}
@@ -944,7 +945,7 @@ func (p *Parser) importDec() (Node, error) {
 			ref.Dec = node
 			ref.BindKind = BK_CONST
 			ref.Typ = RDT_IMPORT
-			if err := p.addLocalBinding(p.Symtab().Scopes[0], ref, true, ref.Id.val); err != nil {
+			if err := p.addLocalBinding(p.Symtab().Root, ref, true, ref.Id.val); err != nil {
 				return nil, err
 			}
 		}
@@ -1104,6 +1105,7 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 	}
 
 	dec := &ClassDec{}
+	var ref *Ref
 	if av != T_BRACE_L && av != T_EXTENDS {
 		if p.ts && (av == T_LT || av == T_IMPLEMENTS) {
 			// hit expr like:
@@ -1125,13 +1127,17 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 		}
 
 		if id != nil {
-			ref := NewRef()
+			ref = NewRef()
 			ref.Id = id.(*Ident)
 			ref.Dec = dec
 			ref.BindKind = BK_CONST
 			ref.Typ = RDT_CLASS | RDT_TYPE
-			if err := p.addLocalBinding(ps, ref, true, ref.Id.val); err != nil {
-				return nil, err
+			ref.ambient = declare
+			// the name of class expression is only visible in the class itself
+			if !expr {
+				if err := p.addLocalBinding(ps, ref, true, ref.Id.val); err != nil {
+					return nil, err
+				}
 			}
 		}
 	}
@@ -1177,6 +1183,10 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 		scope.EraseKind(SPK_CLASS_HAS_SUPER)
 	}
 
+	if expr && ref != nil {
+		p.addLocalBinding(scope, ref, false, ref.Id.val)
+	}
+
 	body, err := p.classBody(declare, super != nil)
 	if err != nil {
 		return nil, err
@@ -1850,6 +1860,9 @@ func (p *Parser) tryStmt() (Node, error) {
 		scope.AddKind(SPK_CATCH)
 
 		if param != nil {
+			if param.Type() == N_NAME {
+				scope.simpleCatch = param.(*Ident).val
+			}
 			names, _, _ := p.collectNames([]Node{param})
 			for _, nameNode := range names {
 				id := nameNode.(*Ident)
@@ -2620,7 +2633,8 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			if ps.IsKind(SPK_TS_DECLARE) {
 				fnRef.Typ = fnRef.Typ.On(RDT_TYPE)
 			}
-			if err := p.addLocalBinding(ps, fnRef, ps.IsKind(SPK_STRICT), fnRef.Id.val); err != nil {
+			fnRef.strictFn = ps.IsKind(SPK_STRICT) || async != nil || generator
+			if err := p.addLocalBinding(ps, fnRef, true, fnRef.Id.val); err != nil {
 				return nil, err
 			}
 		}
@@ -3063,7 +3077,7 @@ func (p *Parser) stmts(terminal TokenValue) ([]Node, error) {
 		ahead := p.lexer.PeekStmtBegin()
 		if stmt != nil {
 			// StrictDirective processing
-			if prologue != -1 && (scope.IsKind(SPK_FUNC) || scope.IsKind(SPK_GLOBAL)) {
+			if prologue != -1 && (scope.IsKind(SPK_FUNC) && (!scope.IsKind(SPK_STATIC_BLOCK) || scope.IsKind(SPK_ARROW)) || scope.IsKind(SPK_GLOBAL)) {
 				strict, dir := p.isDirective(stmt)
 				if !dir {
 					prologue = -1
@@ -5750,7 +5764,7 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 		ahead := p.lexer.Peek()
 		// `ahead.value != T_ARROW` is used to skip checking name when it appears in the param list of arrow expr
 		// for `eval => 42` we should report binding-reserved-word error instead of unexpected-reserved-word error
-		if p.checkName && ahead.value != T_ARROW && !ahead.afterLineTerm && p.isProhibitedName(nil, name, true, false, false, false) &&
+		if p.checkName && (ahead.value != T_ARROW || ahead.afterLineTerm) && p.isProhibitedName(nil, name, true, false, false, false) &&
 			!(name == "yield" && tok.ContainsEscape() && !p.scope().IsKind(SPK_STRICT)) {
 			if tok.ContainsEscape() {
 				return nil, p.errorAtLoc(p.finRng(loc), ERR_ESCAPE_IN_KEYWORD)
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 35ae486..6cf1c68 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -82,9 +82,9 @@ func (t RefDefType) IsTyp() bool {
 
 func (t RefDefType) IsPureTyp() bool {
 	return t&RDT_TYPE != 0 &&
-		(t&RDT_CLASS == 0 ||
-			t&RDT_ENUM == 0 ||
-			t&RDT_CONST_ENUM == 0)
+		t&RDT_CLASS == 0 &&
+		t&RDT_ENUM == 0 &&
+		t&RDT_CONST_ENUM == 0
 }
 
 func (t RefDefType) IsVal() bool {
@@ -112,6 +112,15 @@ type Ref struct {
 
 	// ref with bind kind not none means it's a variable binding
 	BindKind BindKind
+
+	// whether the ref is a function which cannot be redeclared in blocks
+	strictFn bool
+	// whether the ref is declared by `declare`
+	ambient bool
+}
+
+func (r *Ref) isFn() bool {
+	return r.Typ&RDT_FN != 0
 }
 
 func (r *Ref) RetainBy(ref *Ref) {
@@ -147,6 +156,13 @@ type Scope struct {
 
 	// exports declared at this scope
 	Exports []*ExportDec
+
+	// names of the `var` declared in this scope or in its child blocks
+	varNames map[string]bool
+	// the param of the catch clause if it's a name
+	simpleCatch string
+	// whether the scope is the top level of a module
+	module bool
 }
 
 func NewScope() *Scope {
@@ -158,6 +174,8 @@ func NewScope() *Scope {
 		Labels:       make([]Node, 0),
 
 		Refs: make(map[string]*Ref),
+
+		varNames: make(map[string]bool),
 	}
 	return scope
 }
@@ -267,40 +285,71 @@ func (s *Scope) UpperScope(kinds *[]ScopeKind) *Scope {
 	return nil
 }
 
-func (s *Scope) AddLocal(ref *Ref, name string, checkDup bool) bool {
-	cur := s
-	local := s.Local(name)
+// reports whether the functions declared directly in the scope are treated like `var`
+func (s *Scope) fnAsVar() bool {
+	return s.IsKind(SPK_GLOBAL) && !s.module || s.IsKind(SPK_FUNC) && !s.IsKind(SPK_CLASS)
+}
 
-	// `try {} catch (foo) { let foo; }` is illegal
-	if cur.IsKind(SPK_CATCH) && local != nil {
-		return false
+// reports whether the binding `ref` declared directly in the scope is a lexical one
+func (s *Scope) isLexical(ref *Ref) bool {
+	if ref.isFn() {
+		return !s.fnAsVar()
 	}
+	return ref.BindKind == BK_LET || ref.BindKind == BK_CONST
+}
 
-	// register binding to parent fn scope if it's `BK_VAR`
+// reports whether adding `ref` to the scope `s` conflicts with the bindings which already exist,
+// the conflicting one is returned as well
+//
+// https://tc39.es/ecma262/multipage/ecmascript-language-statements-and-declarations.html#sec-block-static-semantics-early-errors
+func (s *Scope) conflictOf(ref *Ref, name string) (*Ref, bool) {
+	local := s.Local(name)
+	if s.isLexical(ref) {
+		// duplicated functions in blocks are permitted in sloppy mode
+		if local != nil && ref.isFn() && !ref.strictFn && local.isFn() && !local.strictFn {
+			return local, false
+		}
+		return local, local != nil || s.varNames[name]
+	}
+	if ref.isFn() {
+		return local, local != nil && s.isLexical(local)
+	}
 	if ref.BindKind == BK_VAR {
-		ps := s.UpperFn()
-		localInPs := ps.Refs[name]
+		for scope := s; scope != nil; scope = scope.Up {
+			local := scope.Local(name)
+			if local != nil && scope.isLexical(local) && scope.simpleCatch != name {
+				return local, true
+			}
+			if scope.IsKind(SPK_FUNC) || scope.IsKind(SPK_GLOBAL) {
+				break
+			}
+		}
+		return nil, false
+	}
+	return local, local != nil
+}
 
-		if checkDup && localInPs != nil && localInPs.BindKind != BK_PARAM &&
-			((localInPs.BindKind != BK_VAR && localInPs.Typ != RDT_FN) ||
-				(localInPs.Scope.Id == 0 && localInPs.Typ == RDT_FN)) {
-			return CheckRefDup(localInPs, ref)
+func (s *Scope) AddLocal(ref *Ref, name string, checkDup bool) bool {
+	if checkDup {
+		if local, conflict := s.conflictOf(ref, name); conflict {
+			return local != nil && CheckRefDup(local, ref)
 		}
-		ps.Refs[name] = ref
 	}
 
-	if !checkDup {
+	// register binding to parent fn scope if it's `BK_VAR`
+	if ref.BindKind == BK_VAR && !ref.isFn() {
+		fn := s.UpperFn()
+		fn.Refs[name] = ref
+		for scope := s; scope != fn; scope = scope.Up {
+			scope.varNames[name] = true
+			if scope == s && scope.Local(name) == nil {
+				scope.Refs[name] = ref
+			}
+		}
 		ref.Scope = s
-		s.Refs[name] = ref
 		return true
 	}
 
-	bindKind := ref.BindKind
-	if local != nil && ((local.BindKind != BK_VAR && local.BindKind != BK_PARAM && local.Typ != RDT_FN && local.Scope.Id != 0) ||
-		bindKind != BK_VAR) {
-		return CheckRefDup(local, ref)
-	}
-
 	ref.Scope = s
 	s.Refs[name] = ref
 	return true
@@ -329,6 +378,9 @@ func CheckRefDup(r1, r2 *Ref) bool {
 	if IsOneOfNs(r1, r2) {
 		return true
 	}
+	if r1.ambient && r2.Typ&RDT_IMPORT != 0 || r2.ambient && r1.Typ&RDT_IMPORT != 0 {
+		return true
+	}
 	return !IsBothTyp(r1, r2) && !IsBothVal(r1, r2)
 }
 
-- 
2.43.0


From 46fd28dc6066226e19237ad529f459ba026bf96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:18 +0000
Subject: [PATCH 22/44] fix: labels, continue targets, functions as single
 statements, repeated default clauses, break in try and repeated arrow params
 misjudged

---
 ecma/parser/ast.go    |  1 +
 ecma/parser/parser.go | 83 +++++++++++++++++++++++++++++++++----------
 ecma/parser/symtab.go |  2 +-
 3 files changed, 66 insertions(+), 20 deletions(-)

diff --git a/ecma/parser/ast.go b/ecma/parser/ast.go
index bfea74e..36ac5d9 100644
--- a/ecma/parser/ast.go
+++ b/ecma/parser/ast.go
@@ -1725,6 +1725,7 @@ type LabelStmt struct {
 	label Node
 	body  Node
 	used  bool
+	loop  bool // whether the labelled statement is a loop
 }
 
 func (n *LabelStmt) Type() NodeType {
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 85dccea..2a3cb10 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -46,6 +46,11 @@ type Parser struct {
 	// a temporary stack which holds the loop nodes in their lexical order
 	loopStk []Node
 
+	// the labels which precede the next statement directly
+	pendingLabels []*LabelStmt
+	// where the next statement appears if it's not in a statement list
+	stmtCtx stmtCtx
+
 	// for resolving the `FnDec.rets`
 	retsStk [][]Node
 
@@ -137,6 +142,8 @@ func (p *Parser) Setup(src *span.Source, opts *ParserOpts) {
 	p.ltTokens = map[uint32]bool{}
 	p.symtab = NewSymTab(opts.Externals)
 	p.loopStk = []Node{}
+	p.pendingLabels = nil
+	p.stmtCtx = SC_NONE
 	p.retsStk = [][]Node{}
 	p.tryStk = []Node{}
 	p.prevCmts = map[Node][]span.Range{}
@@ -339,14 +346,33 @@ func (p *Parser) checkExp(exps []*ExportDec) error {
 
 var errEof = errors.New("eof")
 
+// the context of the statement which is not in a statement list, function declarations
+// are permitted in some of them
+type stmtCtx uint8
+
+const (
+	SC_NONE stmtCtx = iota
+	SC_IF
+	SC_LABEL
+)
+
 // https://tc39.es/ecma262/multipage/ecmascript-language-statements-and-declarations.html#prod-Statement
 func (p *Parser) stmt() (node Node, err error) {
 	tok := p.lexer.PeekStmtBegin()
 
 	scope := p.scope()
-	allowDec := !scope.IsKind(SPK_INTERIM)
+	interim := scope.IsKind(SPK_INTERIM)
+	allowDec := !interim
 	checkHangingDec := true
 
+	labels, ctx := p.pendingLabels, p.stmtCtx
+	p.pendingLabels, p.stmtCtx = nil, SC_NONE
+	if tok.value == T_FOR || tok.value == T_WHILE || tok.value == T_DO {
+		for _, label := range labels {
+			label.loop = true
+		}
+	}
+
 	if tok.value > T_KEYWORD_BEGIN && tok.value < T_KEYWORD_END {
 		switch tok.value {
 		case T_VAR:
@@ -403,7 +429,10 @@ func (p *Parser) stmt() (node Node, err error) {
 		}
 		node, err = p.fnDec(false, tok, false)
 	} else if p.aheadIsLabel(tok) {
-		node, err = p.labelStmt()
+		if ctx == SC_IF {
+			ctx = SC_NONE
+		}
+		node, err = p.labelStmt(labels, ctx)
 	} else if p.aheadIsTsTypDec(tok, false) {
 		rng := p.lexer.Next().rng
 		node, err = p.tsTypDec(rng, false)
@@ -443,10 +472,10 @@ func (p *Parser) stmt() (node Node, err error) {
 
 	if node != nil {
 		typ := node.Type()
-		if scope.IsKind(SPK_INTERIM) {
+		if interim {
 			// `if (morning) function a(){}` is legal
 			// `for (morning;;) function a(){}` is illegal
-			if typ == N_STMT_FN && (scope.IsKind(SPK_STRICT) || scope.IsKind(SPK_LOOP_DIRECT)) {
+			if fn, ok := node.(*FnDec); ok && typ == N_STMT_FN && (ctx == SC_NONE || scope.IsKind(SPK_STRICT) || fn.async || fn.generator) {
 				return nil, p.errorAtLoc(node.Range(), ERR_FN_IN_SINGLE_STMT_CTX)
 			} else if typ == N_STMT_IMPORT || typ == N_STMT_EXPORT {
 				return nil, p.errorAtLoc(node.Range(), ERR_IMPORT_EXPORT_SHOULD_AT_TOP_LEVEL)
@@ -1781,8 +1810,11 @@ func (p *Parser) withStmt() (Node, error) {
 		return nil, err
 	}
 
+	scope := p.scope()
 	tok := p.lexer.PeekStmtBegin()
+	scope.AddKind(SPK_INTERIM)
 	body, err := p.stmt()
+	scope.EraseKind(SPK_INTERIM)
 	if err != nil {
 		if err == errEof {
 			return nil, p.errorTok(tok)
@@ -1983,7 +2015,9 @@ func (p *Parser) aheadIsLabel(tok *Token) bool {
 }
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-statements-and-declarations.html#prod-LabelledStatement
-func (p *Parser) labelStmt() (Node, error) {
+//
+// `labels` are the labels which precede this one directly, `ctx` describes where the statement appears
+func (p *Parser) labelStmt(labels []*LabelStmt, ctx stmtCtx) (Node, error) {
 	rng := p.rng()
 	label, err := p.ident(nil, false)
 	if err != nil {
@@ -1999,10 +2033,15 @@ func (p *Parser) labelStmt() (Node, error) {
 		return nil, p.errorAtLoc(rng, fmt.Sprintf(ERR_DUP_LABEL, labelName))
 	}
 
-	node := &LabelStmt{N_STMT_LABEL, span.Range{}, label, nil, false}
+	node := &LabelStmt{N_STMT_LABEL, span.Range{}, label, nil, false, false}
 	scope.uniqueLabels[labelName] = node
 	scope.Labels = append(scope.Labels, node)
 
+	p.pendingLabels = append(labels, node)
+	p.stmtCtx = ctx
+	if !scope.IsKind(SPK_INTERIM) {
+		p.stmtCtx = SC_LABEL
+	}
 	scope.AddKind(SPK_INTERIM)
 	body, err := p.stmt()
 	scope.EraseKind(SPK_INTERIM)
@@ -2012,8 +2051,7 @@ func (p *Parser) labelStmt() (Node, error) {
 
 	node.rng = p.finRng(rng)
 	node.body = body
-	// reset to check next label chain
-	scope.uniqueLabels = make(map[string]Node)
+	delete(scope.uniqueLabels, labelName)
 	return node, nil
 }
 
@@ -2080,6 +2118,9 @@ func (p *Parser) contStmt() (Node, error) {
 		} else {
 			target.(*LabelStmt).used = true
 		}
+		if !target.(*LabelStmt).loop {
+			return nil, p.errorAtLoc(label.rng, ERR_ILLEGAL_CONTINUE)
+		}
 
 		return &ContStmt{N_STMT_CONT, p.finRng(rng), label, target}, nil
 	}
@@ -2139,7 +2180,7 @@ func (p *Parser) switchStmt() (Node, error) {
 			return nil, err
 		}
 		if caseClause != nil {
-			metDefault = caseClause.test == nil
+			metDefault = metDefault || caseClause.test == nil
 			cases = append(cases, caseClause)
 		} else {
 			break
@@ -2209,6 +2250,7 @@ func (p *Parser) ifStmt() (Node, error) {
 	scope := p.scope()
 	tok := p.lexer.PeekStmtBegin()
 
+	p.stmtCtx = SC_IF
 	scope.AddKind(SPK_INTERIM)
 	cons, err := p.stmt()
 	scope.EraseKind(SPK_INTERIM)
@@ -2225,6 +2267,7 @@ func (p *Parser) ifStmt() (Node, error) {
 		p.lexer.Next()
 		tok := p.lexer.PeekStmtBegin()
 
+		p.stmtCtx = SC_IF
 		scope.AddKind(SPK_INTERIM)
 		alt, err = p.stmt()
 		scope.EraseKind(SPK_INTERIM)
@@ -2634,7 +2677,8 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 				fnRef.Typ = fnRef.Typ.On(RDT_TYPE)
 			}
 			fnRef.strictFn = ps.IsKind(SPK_STRICT) || async != nil || generator
-			if err := p.addLocalBinding(ps, fnRef, true, fnRef.Id.val); err != nil {
+			// the function which is the body of `if` is in a block of its own
+			if err := p.addLocalBinding(ps, fnRef, !ps.IsKind(SPK_INTERIM), fnRef.Id.val); err != nil {
 				return nil, err
 			}
 		}
@@ -2711,7 +2755,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		}
 	}
 
-	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict); err != nil {
+	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict, false); err != nil {
 		return nil, err
 	}
 
@@ -2923,9 +2967,10 @@ func (p *Parser) collectNames(nodes []Node) (names []Node, firstComplicated span
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-functions-and-classes.html#sec-parameter-lists-static-semantics-early-errors
 // `isSimpleParamList` should be true if function body directly contains `use strict` directive
-func (p *Parser) checkParams(names []Node, firstComplicated span.Range, isStrict bool, directStrict bool) error {
+// `unique` means the names must be unique even in sloppy mode, such as the params of arrow functions and methods
+func (p *Parser) checkParams(names []Node, firstComplicated span.Range, isStrict bool, directStrict bool, unique bool) error {
 	var dupLoc span.Range
-	unique := make(map[string]bool)
+	met := make(map[string]bool)
 	for _, id := range names {
 		name := id.(*Ident).val
 		if p.isProhibitedName(nil, name, isStrict, true, false, false) {
@@ -2933,11 +2978,11 @@ func (p *Parser) checkParams(names []Node, firstComplicated span.Range, isStrict
 		}
 
 		if dupLoc.Empty() {
-			if _, ok := unique[name]; ok {
+			if _, ok := met[name]; ok {
 				dupLoc = id.Range()
 
 			} else {
-				unique[name] = true
+				met[name] = true
 			}
 		}
 	}
@@ -2947,7 +2992,7 @@ func (p *Parser) checkParams(names []Node, firstComplicated span.Range, isStrict
 	}
 
 	if !dupLoc.Empty() {
-		if isStrict {
+		if isStrict || unique {
 			return p.errorAtLoc(dupLoc, ERR_DUP_PARAM_NAME)
 		}
 		if !firstComplicated.Empty() {
@@ -5038,7 +5083,7 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 		n := arg.(*Prop)
 		var err error
 		if n.value != nil {
-			if n.value.Type() == N_EXPR_FN && depth > 0 {
+			if (n.method || n.kind == PK_GETTER || n.kind == PK_SETTER) && depth > 0 {
 				return nil, p.errorAtLoc(arg.Range(), ERR_OBJ_PATTERN_CANNOT_FN)
 			}
 
@@ -5925,7 +5970,7 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 
 	isStrict := scope.IsKind(SPK_STRICT)
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
-	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict); err != nil {
+	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict, true); err != nil {
 		return nil, err
 	}
 
@@ -6376,7 +6421,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
 
 	// `isProhibitedName` is not needed here since `keyword` as method name is permitted
-	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict); err != nil {
+	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict, true); err != nil {
 		return nil, err
 	}
 
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 6cf1c68..e2cf883 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -612,7 +612,7 @@ func (s *SymTab) EnterScope(fn bool, arrow bool, settled bool) *Scope {
 			scope.Kind |= SPK_SWITCH_INDIRECT
 		}
 		if s.Cur.IsKind(SPK_TRY) || s.Cur.IsKind(SPK_TRY_INDIRECT) {
-			scope.Kind |= SPK_SWITCH_INDIRECT
+			scope.Kind |= SPK_TRY_INDIRECT
 		}
 		if s.Cur.IsKind(SPK_FORMAL_PARAMS) {
 			scope.Kind |= SPK_FORMAL_PARAMS
-- 
2.43.0


From 8e73e5fe8fbc62864882b3c53f205cb4e971761f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:22 +0000
Subject: [PATCH 23/44] fix: slash after a plain template read as regexp,
 object literals with shorthand values or valueless keys accepted

---
 ecma/parser/lexer.go  |  4 ++--
 ecma/parser/parser.go | 54 ++++++++++++++++++++++++++++++++++++++++---
 ecma/parser/token.go  |  8 +++++++
 3 files changed, 61 insertions(+), 5 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 7c3f1c0..c3eaee0 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -175,7 +175,7 @@ func NewLexer(src *span.Source) *Lexer {
 // read a token, named `next` to indicate it will move the cursor
 func (l *Lexer) Next() *Token {
 	tok := l.readTok()
-	l.state.prtVal = tok.value
+	l.state.prtVal = tok.prevVal()
 	l.state.prtRng = tok.rng
 	return tok
 }
@@ -455,7 +455,7 @@ func (l *Lexer) advance() *Token {
 	// only update `prtVal` for telling whether ahead is regexp or not,
 	// other prt fields such as `prtRng` will be updated after `Next` is
 	// called
-	l.state.prtVal = tok.value
+	l.state.prtVal = tok.prevVal()
 
 	if tok.value == T_EOF {
 		return tok
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 2a3cb10..1282ca6 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -46,6 +46,10 @@ type Parser struct {
 	// a temporary stack which holds the loop nodes in their lexical order
 	loopStk []Node
 
+	// the props which are only permitted in patterns, such as `a = 1` in `({ a = 1 } = b)`
+	coverProps    []*Prop
+	coverPropsStk [][]*Prop
+
 	// the labels which precede the next statement directly
 	pendingLabels []*LabelStmt
 	// where the next statement appears if it's not in a statement list
@@ -142,6 +146,8 @@ func (p *Parser) Setup(src *span.Source, opts *ParserOpts) {
 	p.ltTokens = map[uint32]bool{}
 	p.symtab = NewSymTab(opts.Externals)
 	p.loopStk = []Node{}
+	p.coverProps = nil
+	p.coverPropsStk = nil
 	p.pendingLabels = nil
 	p.stmtCtx = SC_NONE
 	p.retsStk = [][]Node{}
@@ -365,6 +371,7 @@ func (p *Parser) stmt() (node Node, err error) {
 	allowDec := !interim
 	checkHangingDec := true
 
+	coverProps := len(p.coverProps)
 	labels, ctx := p.pendingLabels, p.stmtCtx
 	p.pendingLabels, p.stmtCtx = nil, SC_NONE
 	if tok.value == T_FOR || tok.value == T_WHILE || tok.value == T_DO {
@@ -470,6 +477,10 @@ func (p *Parser) stmt() (node Node, err error) {
 		return nil, p.errorTok(tok)
 	}
 
+	if err := p.checkCoverProps(coverProps); err != nil {
+		return nil, err
+	}
+
 	if node != nil {
 		typ := node.Type()
 		if interim {
@@ -3828,7 +3839,7 @@ func (p *Parser) patternProp() (Node, error) {
 			return nil, err
 		}
 	} else if assign {
-		if key.Type() == N_NAME {
+		if key.Type() == N_NAME && compute.Empty() {
 			return p.patternAssign(key, true)
 		}
 		return nil, p.errorTok(tok)
@@ -3836,6 +3847,9 @@ func (p *Parser) patternProp() (Node, error) {
 
 	shorthand := false
 	if value == nil {
+		if key.Type() != N_NAME || !compute.Empty() || isReservedName(key.(*Ident).val) {
+			return nil, p.errorTok(tok)
+		}
 		value = key
 		shorthand = true
 	}
@@ -4699,17 +4713,43 @@ func (p *Parser) addLtTok(ofst uint32) {
 	p.ltTokens[ofst] = true
 }
 
+// `prop` is in a pattern
+func (p *Parser) settleCoverProp(prop *Prop) {
+	for i, n := range p.coverProps {
+		if n == prop {
+			p.coverProps = append(p.coverProps[:i:i], p.coverProps[i+1:]...)
+			return
+		}
+	}
+}
+
+// checks whether there is any prop which is only permitted in patterns but is in an object literal
+func (p *Parser) checkCoverProps(from int) error {
+	if len(p.coverProps) <= from {
+		return nil
+	}
+	n := p.coverProps[from]
+	if n.assign {
+		return p.errorAtLoc(n.opLoc, ERR_SHORTHAND_PROP_ASSIGN_NOT_IN_DESTRUCT)
+	}
+	return p.errorAtLoc(n.key.Range(), ERR_UNEXPECTED_TOKEN)
+}
+
 func (p *Parser) pushState() {
+	p.coverPropsStk = append(p.coverPropsStk, p.coverProps)
 	p.lexer.PushState()
 	p.lexer.src.PushState()
 }
 
 func (p *Parser) discardState() {
+	p.coverPropsStk = p.coverPropsStk[:len(p.coverPropsStk)-1]
 	p.lexer.DiscardState()
 	p.lexer.src.DiscardState()
 }
 
 func (p *Parser) popState() {
+	p.coverProps = p.coverPropsStk[len(p.coverPropsStk)-1]
+	p.coverPropsStk = p.coverPropsStk[:len(p.coverPropsStk)-1]
 	p.lexer.src.PopState()
 	p.lexer.PopState()
 }
@@ -5109,6 +5149,7 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 			return nil, p.errorAtLoc(n.key.Range(), ERR_UNEXPECTED_TOKEN)
 		}
 		if n.assign {
+			p.settleCoverProp(n)
 			if !prop && depth > 0 {
 				return nil, p.errorAtLoc(n.opLoc, ERR_SHORTHAND_PROP_ASSIGN_NOT_IN_DESTRUCT)
 			}
@@ -6260,16 +6301,23 @@ func (p *Parser) propData() (Node, error) {
 	}
 
 	shorthand := assign
+	if assign && (key.Type() != N_NAME || !compute.Empty()) {
+		return nil, p.errorAtLoc(opLoc, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, "="))
+	}
 	if value == nil && key.Type() == N_NAME {
 		id := key.(*Ident)
 		name := id.val
-		if id.kw && name != "eval" && name != "arguments" {
+		if id.kw && name != "eval" && name != "arguments" || isReservedName(name) {
 			return nil, p.errorAtLoc(id.rng, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, id.val))
 		}
 		shorthand = true
 		value = key
 	}
-	return &Prop{N_PROP, p.finRng(loc), key, opLoc, value, !compute.Empty(), false, shorthand, assign, PK_INIT, ACC_MOD_NONE}, nil
+	prop := &Prop{N_PROP, p.finRng(loc), key, opLoc, value, !compute.Empty(), false, shorthand, assign, PK_INIT, ACC_MOD_NONE}
+	if assign || value == nil {
+		p.coverProps = append(p.coverProps, prop)
+	}
+	return prop, nil
 }
 
 func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.Range, shorthand bool, kind PropKind,
diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index a317780..b445291 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -94,6 +94,14 @@ func (t *Token) IsPlainTpl() bool {
 	return t.ext.(*TokExtTplSpan).Plain
 }
 
+// the value used to tell whether the `/` after the token begins a regexp
+func (t *Token) prevVal() TokenValue {
+	if t.IsPlainTpl() {
+		return T_TPL_TAIL
+	}
+	return t.value
+}
+
 func (t *Token) HasLegacyOctalEscapeSeq() bool {
 	if t.value == T_STRING {
 		return t.ext.(*TokExtStr).LegacyOctalEscapeSeq
-- 
2.43.0


From 46c85033608438337f5f6bd6703fcdca46f757b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:52 +0000
Subject: [PATCH 24/44] fix: arrow functions in arrays rejected, missing
 semicolons after fields and default exports, operands of await, extends and
 const in for heads misjudged

---
 ecma/parser/parser.go | 35 +++++++++++++++++++++++++++++++----
 ecma/parser/symtab.go |  2 +-
 2 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 1282ca6..1e78ace 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -574,7 +574,10 @@ func (p *Parser) exportDec() (Node, error) {
 			}
 		} else {
 			node.dec, err = p.assignExpr(true, false, false, false)
-			if err := p.advanceIfSemi(false); err != nil {
+			if err != nil {
+				return nil, err
+			}
+			if err := p.advanceIfSemi(true); err != nil {
 				return nil, err
 			}
 		}
@@ -1195,6 +1198,9 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 		if err != nil {
 			return nil, err
 		}
+		if super.Type() == N_EXPR_ARROW {
+			return nil, p.errorAtLoc(super.Range(), ERR_MALFORMED_ARROW_PARAM)
+		}
 		if err := p.checkDefaultVal(super, false, false, false); err != nil {
 			return nil, err
 		}
@@ -1734,6 +1740,9 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 		}
 		return p.method(rng, key, accMod, compute, false, PK_METHOD, false, false, true, true, !static.Empty(), beginLoc, !declare.Empty(), !abstract.Empty(), !override.Empty(), ti)
 	}
+	if tok = p.lexer.Peek(); tok.value != T_SEMI && tok.value != T_BRACE_R && !tok.afterLineTerm {
+		return nil, p.errorTok(tok)
+	}
 	p.advanceIfSemi(false)
 
 	if p.ts && !compute.Empty() && ti.typAnnot != nil {
@@ -2437,10 +2446,19 @@ func (p *Parser) forStmt() (Node, error) {
 			return nil, p.errorAt(T_IN, tok.rng, "")
 		}
 		return nil, p.errorTok(tok)
-	} else if isOf && !await && init.Type() == N_NAME && init.(*Ident).val == "async" {
+	} else if isOf && !await && init != nil && init.Type() == N_NAME && init.(*Ident).val == "async" {
 		return nil, p.errorAtLoc(init.Range(), ERR_LHS_OF_FOR_OF_CANNOT_ASYNC)
 	}
 
+	// the init of const is only omittable if it's the left of for-in or for-of
+	if varDec, ok := init.(*VarDecStmt); ok && varDec.kind == T_CONST && !isIn && !isOf {
+		for _, dec := range varDec.decList {
+			if dec := dec.(*VarDec); dec.init == nil {
+				return nil, p.errorAtLoc(dec.rng, ERR_CONST_DEC_INIT_REQUIRED)
+			}
+		}
+	}
+
 	if isIn || isOf {
 		loop := &ForInOfStmt{N_STMT_FOR_IN_OF, span.Range{}, false, false, nil, nil, nil}
 		p.pushLoopStk(loop)
@@ -4405,6 +4423,9 @@ func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 			}
 			return nil, p.errorTok(ahead)
 		}
+		if scope.IsKind(SPK_ASYNC) {
+			return nil, p.errorTok(ahead)
+		}
 		return &Ident{N_NAME, p.finRng(rng), "await", false, tok.ContainsEscape(), span.Range{}, true, p.newTypInfo(N_NAME)}, nil
 	}
 
@@ -4420,6 +4441,9 @@ func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if arg.Type() == N_EXPR_ARROW {
+		return nil, p.errorAtLoc(arg.Range(), ERR_MALFORMED_ARROW_PARAM)
+	}
 	return &UnaryExpr{N_EXPR_UNARY, p.finRng(rng), T_AWAIT, arg, span.Range{}}, nil
 }
 
@@ -4469,7 +4493,7 @@ func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (
 			if at == N_EXPR_MEMBER {
 				m = arg.(*MemberExpr)
 			} else if at == N_EXPR_CHAIN {
-				m = arg.(*ChainExpr).expr.(*MemberExpr)
+				m, _ = arg.(*ChainExpr).expr.(*MemberExpr)
 			}
 
 			if m != nil && m.prop.Type() == N_NAME {
@@ -4848,6 +4872,9 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 				firstOpt = fo
 			}
 		} else if tv == T_TPL_HEAD {
+			if !firstOpt.Empty() {
+				return nil, span.Range{}, p.errorAtLoc(p.lexer.Peek().rng, ERR_OPT_EXPR_IN_TAG)
+			}
 			callee, err = p.tplExpr(callee, false)
 			if err != nil {
 				return nil, span.Range{}, err
@@ -6605,7 +6632,7 @@ func (p *Parser) nameOfNode(node Node) string {
 func (p *Parser) isExprOpening(raise bool) (*Token, error) {
 	tok := p.lexer.PeekStmtBegin()
 	tv := tok.value
-	if raise && tv != T_SEMI && tv != T_BRACE_R && tv != T_COMMA && tv != T_PAREN_R && tv != T_COLON && !tok.afterLineTerm && tv != T_EOF {
+	if raise && tv != T_SEMI && tv != T_BRACE_R && tv != T_COMMA && tv != T_PAREN_R && tv != T_BRACKET_R && tv != T_COLON && !tok.afterLineTerm && tv != T_EOF {
 		errMsg := ERR_UNEXPECTED_TOKEN
 		if tok.value == T_ILLEGAL {
 			if msg, ok := tok.ext.(string); ok {
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index e2cf883..286065b 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -408,7 +408,7 @@ func IsCallableClass(r1, r2 *Ref) bool {
 			cls = r1
 		}
 	}
-	return fn != nil && cls != nil
+	return fn != nil && cls != nil && cls.ambient
 }
 
 // caller should ensure both `r1` and `r2` match below rules:
-- 
2.43.0


From 37c8fb46855fd8c2db7c290e3f111e04939d2946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:26 +0000
Subject: [PATCH 25/44] fix: JSX names that are keywords, entities, spread
 attributes, empty attribute values, comments in tags, namespaced names and
 divisions after elements misread

---
 ecma/estree/convert.go  | 24 ++++++++++--
 ecma/estree/jsx_node.go |  4 +-
 ecma/parser/jsx.go      | 29 +++++++++++----
 ecma/parser/jsx_ast.go  |  8 ++++
 ecma/parser/lexer.go    | 81 ++++++++++++++++++++++++++---------------
 5 files changed, 104 insertions(+), 42 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 06a824c..6ac9fab 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -1421,8 +1421,8 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 			Start:     int(node.Range().Lo),
 			End:       int(node.Range().Hi),
 			Loc:       locOfNode(node, ctx.Parser.Source(), ctx),
-			Namespace: node.NS(),
-			Name:      node.Name(),
+			Namespace: Convert(node.NSId(), ctx),
+			Name:      Convert(node.NameId(), ctx),
 		}
 	case parser.N_JSX_MEMBER:
 		node := node.(*parser.JsxMember)
@@ -1432,7 +1432,7 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 			End:      int(node.Range().Hi),
 			Loc:      locOfNode(node, ctx.Parser.Source(), ctx),
 			Object:   Convert(node.Obj(), ctx),
-			Property: Convert(node.Prop(), ctx),
+			Property: jsxPropId(node.Prop(), ctx),
 		}
 	case parser.N_JSX_ELEM:
 		node := node.(*parser.JsxElem)
@@ -1534,12 +1534,16 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 		}
 	case parser.N_JSX_ATTR_SPREAD:
 		node := node.(*parser.JsxSpreadAttr)
+		arg := node.Arg()
+		if spread, ok := arg.(*parser.Spread); ok {
+			arg = spread.Arg()
+		}
 		return &JSXSpreadAttribute{
 			Type:     "JSXSpreadAttribute",
 			Start:    int(node.Range().Lo),
 			End:      int(node.Range().Hi),
 			Loc:      locOfNode(node, ctx.Parser.Source(), ctx),
-			Argument: Convert(node.Arg(), ctx),
+			Argument: Convert(arg, ctx),
 		}
 	case parser.N_JSX_CHILD_SPREAD:
 		node := node.(*parser.JsxSpreadChild)
@@ -1572,3 +1576,15 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 	// bypass the ts related node like `Ambient`
 	return ConvertTsTyp(node, ctx)
 }
+
+// the property of `JSXMemberExpression` is `JSXIdentifier`
+func jsxPropId(node parser.Node, ctx *ConvertCtx) Node {
+	id := node.(*parser.Ident)
+	return &JSXIdentifier{
+		Type:  "JSXIdentifier",
+		Start: int(id.Range().Lo),
+		End:   int(id.Range().Hi),
+		Loc:   locOfNode(id, ctx.Parser.Source(), ctx),
+		Name:  id.Val(),
+	}
+}
diff --git a/ecma/estree/jsx_node.go b/ecma/estree/jsx_node.go
index fb6e4d3..b3e0599 100644
--- a/ecma/estree/jsx_node.go
+++ b/ecma/estree/jsx_node.go
@@ -36,8 +36,8 @@ type JSXNamespacedName struct {
 	Start     int     `json:"start"`
 	End       int     `json:"end"`
 	Loc       *SrcLoc `json:"loc"`
-	Namespace string  `json:"namespace"`
-	Name      string  `json:"name"`
+	Namespace Node    `json:"namespace"`
+	Name      Node    `json:"name"`
 }
 
 type JSXMemberExpression struct {
diff --git a/ecma/parser/jsx.go b/ecma/parser/jsx.go
index 6b922c1..7931eba 100644
--- a/ecma/parser/jsx.go
+++ b/ecma/parser/jsx.go
@@ -12,11 +12,12 @@ func (p *Parser) jsxMember(obj Node, path string) (Node, string, error) {
 		av := ahead.value
 		if av == T_DOT {
 			p.lexer.Next()
-			prop, err := p.ident(nil, false)
+			prop, name, err := p.jsxId()
 			if err != nil {
 				return nil, "", err
 			}
-			path = path + "." + prop.val
+			path = path + "." + name
+			prop = &Ident{N_NAME, prop.Range(), name, false, false, span.Range{}, false, p.newTypInfo(N_NAME)}
 			obj = &JsxMember{N_JSX_MEMBER, p.finRng(obj.Range()), obj, prop, p.newTypInfo(N_JSX_MEMBER)}
 		} else {
 			break
@@ -38,8 +39,7 @@ func (p *Parser) jsxNsExpr(ns Node, path string) (Node, string, error) {
 
 func (p *Parser) jsxId() (Node, string, error) {
 	tok := p.lexer.Next()
-	tv := tok.value
-	if tv != T_NAME {
+	if tok.value != T_NAME && !tok.IsKw() {
 		return nil, "", p.errorTok(tok)
 	}
 
@@ -123,6 +123,9 @@ func (p *Parser) jsxAttr() (Node, error) {
 		if err != nil {
 			return nil, err
 		}
+		if val.Type() == N_SPREAD || val.(*JsxExprSpan).expr.Type() == N_JSX_EMPTY {
+			return nil, p.errorAtLoc(rng, ERR_UNEXPECTED_TOKEN)
+		}
 	} else if av == T_STRING {
 		tok := p.lexer.Next()
 		rng := tok.rng
@@ -132,6 +135,8 @@ func (p *Parser) jsxAttr() (Node, error) {
 		if err != nil {
 			return nil, err
 		}
+	} else {
+		return nil, p.errorTok(ahead)
 	}
 	attr.rng = p.finRng(attr.rng)
 	attr.val = val
@@ -176,7 +181,7 @@ func (p *Parser) jsxOpen(tok *Token) (Node, error) {
 	if closed {
 		p.lexer.Next()
 	}
-	if _, err := p.nextMustTok(T_GT); err != nil {
+	if err := p.jsxNextGT(); err != nil {
 		return nil, err
 	}
 	return &JsxOpen{N_JSX_OPEN, p.finRng(rng), id, name, attrs, closed}, nil
@@ -221,12 +226,22 @@ func (p *Parser) jsxExpr(rng span.Range) (Node, error) {
 	return expr, nil
 }
 
+// advances the `>` which ends a tag, the `/` after the element is a division
+func (p *Parser) jsxNextGT() error {
+	tok := p.lexer.Peek()
+	if tok.value != T_GT {
+		return p.errorTok(tok)
+	}
+	p.lexer.NextRevise(T_PAREN_R)
+	return nil
+}
+
 func (p *Parser) jsxClose(rng span.Range) (Node, error) {
 	p.lexer.Next() // `/`
 
 	// fragment
 	if p.lexer.Peek().value == T_GT {
-		p.lexer.Next()
+		p.jsxNextGT()
 		p.lexer.PopMode()
 		return &JsxClose{N_JSX_CLOSE, p.finRng(rng), nil, ""}, nil
 	}
@@ -235,7 +250,7 @@ func (p *Parser) jsxClose(rng span.Range) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	if _, err := p.nextMustTok(T_GT); err != nil {
+	if err := p.jsxNextGT(); err != nil {
 		return nil, err
 	}
 	// balance the `pushMode` at the beginning of the `p.jsx()`
diff --git a/ecma/parser/jsx_ast.go b/ecma/parser/jsx_ast.go
index 17de8f2..793adea 100644
--- a/ecma/parser/jsx_ast.go
+++ b/ecma/parser/jsx_ast.go
@@ -63,6 +63,14 @@ func (n *JsxNsName) Name() string {
 	return n.name.(*JsxIdent).Val()
 }
 
+func (n *JsxNsName) NSId() Node {
+	return n.ns
+}
+
+func (n *JsxNsName) NameId() Node {
+	return n.name
+}
+
 // #[visitor(Obj,Prop)]
 type JsxMember struct {
 	typ  NodeType
diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index c3eaee0..c302a42 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -4,6 +4,7 @@ import (
 	"container/list"
 	"fmt"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 
@@ -380,6 +381,8 @@ func (l *Lexer) readTokWithComment() *Token {
 			l.src.Read()
 			if l.src.AheadIsCh('/') {
 				return l.readSinglelineComment(tok)
+			} else if l.src.AheadIsCh('*') {
+				return l.readMultilineComment(tok)
 			}
 			return l.finToken(tok, T_DIV)
 		case '>':
@@ -1212,6 +1215,7 @@ func (l *Lexer) readJsxStr() *Token {
 			break
 		}
 	}
+	tok.text = decodeHTMLEntities(l.src.RngText(tok.txt))
 
 	tok.ext = &TokExtStr{open, false}
 	return l.finToken(tok, T_STRING)
@@ -1692,6 +1696,50 @@ func (l *Lexer) readHex4Digits(id bool, start uint32) (rune, *FixedOfstErr) {
 	return rr, nil
 }
 
+// replaces the HTML entities in the text, the `&` which does not begin a known entity stands for itself
+func decodeHTMLEntities(text string) string {
+	if strings.IndexByte(text, '&') == -1 {
+		return text
+	}
+
+	rs := make([]byte, 0, len(text))
+	for i := 0; i < len(text); i++ {
+		if text[i] == '&' {
+			end := strings.IndexByte(text[i:], ';')
+			if end > 0 && end < MaxHTMLEntityName {
+				if bs, ok := decodeHTMLEntity(text[i : i+end+1]); ok {
+					rs = append(rs, bs...)
+					i += end
+					continue
+				}
+			}
+		}
+		rs = append(rs, text[i])
+	}
+	return string(rs)
+}
+
+func decodeHTMLEntity(entity string) ([]byte, bool) {
+	if ed, ok := HTMLEntities[entity]; ok {
+		return ed.Bytes, true
+	}
+
+	body := entity[1 : len(entity)-1]
+	base := 10
+	if strings.HasPrefix(body, "#x") {
+		body, base = body[2:], 16
+	} else if strings.HasPrefix(body, "#") {
+		body = body[1:]
+	} else {
+		return nil, false
+	}
+	cp, err := strconv.ParseUint(body, base, 32)
+	if err != nil || cp > utf8.MaxRune {
+		return nil, false
+	}
+	return utf8.AppendRune(nil, rune(cp)), true
+}
+
 func (l *Lexer) readJSXTxt() *Token {
 	tok := l.newToken()
 
@@ -1702,42 +1750,17 @@ func (l *Lexer) readJSXTxt() *Token {
 		tok.rng.Lo = prevWs.rng.Lo
 	}
 
-	rs := make([]byte, 0)
-
-	i := 0
-	entity := make([]byte, 0, MaxHTMLEntityName)
-
+	txt := l.src.NewOpenRange()
 	for {
 		c := l.src.Peek()
 		if c == '{' || c == '<' || c == span.EOF {
-			if i == 0 && c == span.EOF {
-				l.src.Read()
-				return l.finToken(tok, T_EOF)
-			}
 			break
-		} else if c == '&' || i > 0 {
-			if c == '&' {
-			}
-
-			l.src.Read()
-
-			i += 1
-			entity = utf8.AppendRune(entity, c)
-			if c == ';' {
-				key := string(entity[0:i])
-				if ed, ok := HTMLEntities[key]; ok {
-					rs = append(rs, ed.Bytes...)
-				} else {
-					return l.errTokMsg(tok, fmt.Sprintf(ERR_TPL_JSX_UNDEFINED_HTML_ENTITY, key))
-				}
-				i = 0
-			}
-		} else {
-			rs = utf8.AppendRune(rs, l.src.Read())
 		}
+		l.src.Read()
 	}
+	txt.Hi = l.src.Ofst()
 
-	tok.ext = preWs + util.Bytes2str(&rs)
+	tok.ext = preWs + decodeHTMLEntities(l.src.RngText(txt))
 	return l.finToken(tok, T_JSX_TXT)
 }
 
-- 
2.43.0


From f06a77626d6fad1a84d74d50c787ebf2e8bf2fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:24 +0000
Subject: [PATCH 26/44] fix: offsets of sources with non-ASCII characters, line
 terminators before comments lost, U+FEFF rejected as space, calls on JSX
 elements

---
 ecma/parser/jsx.go    | 11 ++++++++---
 ecma/parser/lexer.go  | 12 +++++++-----
 ecma/parser/parser.go |  3 ++-
 span/source.go        |  8 +++++++-
 4 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/ecma/parser/jsx.go b/ecma/parser/jsx.go
index 7931eba..fee51f2 100644
--- a/ecma/parser/jsx.go
+++ b/ecma/parser/jsx.go
@@ -72,6 +72,9 @@ func (p *Parser) jsxName() (Node, string, error) {
 		name = id
 		pth = jsxName
 	}
+	if !p.ts {
+		return name, pth, nil
+	}
 	typArgs, err := p.tsTryTypArgs(span.Range{}, true)
 	if err != nil {
 		return nil, "", err
@@ -131,7 +134,7 @@ func (p *Parser) jsxAttr() (Node, error) {
 		rng := tok.rng
 		val = &StrLit{N_LIT_STR, p.finRng(rng), p.TokText(tok), tok.HasLegacyOctalEscapeSeq(), span.Range{}, nil}
 	} else if av == T_LT {
-		val, err = p.jsx(true, false)
+		val, err = p.jsx(false, false)
 		if err != nil {
 			return nil, err
 		}
@@ -378,11 +381,13 @@ func (p *Parser) jsx(root bool, opening bool) (Node, error) {
 
 	// element is closed
 	p.lexer.PopMode()
-	ahead = p.lexer.Peek()
 	// here `T_LT` is not say that the followed node is a jsx-open tag since the close-tag also starts with `<`
 	// however if we combined the `is root` condition with is `is LI` then we can report the error `ERR_JSX_ADJACENT_ELEM_SHOULD_BE_WRAPPED`
 	// correctly since the root jsx element must stand alone
-	if ahead.value == T_LT && root {
+	if !root {
+		return &JsxElem{N_JSX_ELEM, p.finRng(open.Range()), open, close, children}, nil
+	}
+	if ahead = p.lexer.Peek(); ahead.value == T_LT {
 		return nil, p.errorAt(ahead.value, ahead.rng, ERR_JSX_ADJACENT_ELEM_SHOULD_BE_WRAPPED)
 	}
 	return &JsxElem{N_JSX_ELEM, p.finRng(open.Range()), open, close, children}, nil
diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index c302a42..069b208 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -234,7 +234,7 @@ func (l *Lexer) Rng() span.Range {
 		rng.Lo = tok.rng.Lo
 		rng.Hi = rng.Lo
 	} else {
-		rng.Lo = l.src.Pos()
+		rng.Lo = l.src.Ofst()
 		rng.Hi = rng.Lo
 	}
 	return rng
@@ -244,7 +244,7 @@ func (l *Lexer) FinRng(rng span.Range) span.Range {
 	if l.state.prtVal != T_ILLEGAL {
 		rng.Hi = l.state.prtRng.Hi
 	} else {
-		rng.Hi = l.src.Pos()
+		rng.Hi = l.src.Ofst()
 	}
 	return rng
 }
@@ -412,11 +412,12 @@ func (l *Lexer) readTokWithComment() *Token {
 func (l *Lexer) lexTok() *Token {
 	prt := T_ILLEGAL
 	prtAtm := false
-	prtExt := false
+	// whether a line terminator is before or inside any of the skipped comments
+	metLineTerm := false
 	for {
 		tok := l.readTokWithComment()
 		if tok.value != T_COMMENT {
-			if !tok.afterLineTerm && prt == T_COMMENT && prtExt == true {
+			if metLineTerm {
 				tok.afterLineTerm = true
 			}
 			return tok
@@ -428,7 +429,8 @@ func (l *Lexer) lexTok() *Token {
 		}
 		prt = tok.value
 		prtAtm = tok.afterLineTerm
-		prtExt = tok.ext.(bool) // indicates whether the comment is multiline or not
+		// the `ext` indicates whether the comment is multiline or not
+		metLineTerm = metLineTerm || tok.afterLineTerm || tok.ext.(bool)
 	}
 }
 
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 1e78ace..78d4ea8 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4459,7 +4459,8 @@ func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (
 			return nil, err
 		}
 		if typArgs != nil && typArgs.Type() == N_JSX_ELEM {
-			return typArgs, nil
+			node, _, err := p.callExpr(typArgs, true, false, span.Range{}, notColon)
+			return node, err
 		}
 	}
 
diff --git a/span/source.go b/span/source.go
index a1d26a1..c50709b 100644
--- a/span/source.go
+++ b/span/source.go
@@ -176,6 +176,12 @@ func IsLineTerminator(c rune) bool {
 	return c == 0x0a || c == 0x0d || c == 0x2028 || c == 0x2029
 }
 
+// the whitespaces and line terminators of ECMAScript, `U+0085` is not one of them while
+// the `U+FEFF` is
+func IsSpace(c rune) bool {
+	return c == 0xfeff || c != 0x85 && unicode.IsSpace(c)
+}
+
 // ofst base on byte
 func (s *Source) Ofst() uint32 {
 	return s.state.ofst
@@ -205,7 +211,7 @@ func (s *Source) SkipSpace() *Source {
 	s.state.metLineTerm = false
 	for {
 		c := s.Peek()
-		if !unicode.IsSpace(c) || c == EOF {
+		if !IsSpace(c) || c == EOF {
 			break
 		}
 		if IsLineTerminator(c) {
-- 
2.43.0


From ef42e62bd7b8a72274df6861978a97ce7e9a9f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:05 +0000
Subject: [PATCH 27/44] fix: rest elements in declarations and catch clauses,
 nameless methods, labels named let or async, keywords in import and export
 names, initializers in for-of and new of arrows misjudged

---
 ecma/parser/errors.go |  1 +
 ecma/parser/parser.go | 34 ++++++++++++++++++++++------------
 ecma/parser/ts.go     |  3 +++
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/ecma/parser/errors.go b/ecma/parser/errors.go
index f0bf8d1..dcb6555 100644
--- a/ecma/parser/errors.go
+++ b/ecma/parser/errors.go
@@ -142,6 +142,7 @@ const (
 	ERR_IMPORT_EXPORT_SHOULD_AT_TOP_LEVEL          = "'import' and 'export' may only appear at the top level"
 	ERR_COMPLEX_BINDING_MISSING_INIT               = "Complex binding patterns require an initialization value"
 	ERR_LHS_OF_FOR_OF_CANNOT_ASYNC                 = "The left-hand side of a for-of loop may not be 'async'"
+	ERR_LHS_OF_FOR_OF_CANNOT_LET                   = "The left-hand side of a for-of loop may not start with 'let'"
 	ERR_TPL_UNARY_IMMEDIATELY_BEFORE_POW           = "Unary operator `%s` used immediately before exponentiation expression"
 	ERR_TPL_ID_DUP_DEF                             = "Identifier `%s` has already been declared"
 	ERR_UNEXPECTED_PVT_FIELD                       = "Unexpected private field"
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 78d4ea8..d5ab335 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -782,9 +782,9 @@ func (p *Parser) exportNamed(typ bool) ([]Node, error) {
 
 func (p *Parser) identWithKw(scope *Scope, binding bool) (Node, error) {
 	ahead := p.lexer.Peek()
-	if ahead.IsKw() {
+	if ahead.IsKw() || IsName(ahead, "in", true) {
+		str := p.TokText(ahead)
 		p.lexer.Next()
-		str := TokenKinds[ahead.value].Name
 		return &Ident{N_NAME, p.finRng(ahead.rng), str, false, false, span.Range{}, true, p.newTypInfo(N_NAME)}, nil
 	}
 	return p.ident(scope, binding)
@@ -873,6 +873,7 @@ func (p *Parser) importDec() (Node, error) {
 
 	specs := make([]Node, 0, 5)
 	tok := p.lexer.Peek()
+	hasClause := tok.value != T_STRING
 	node := &ImportDec{N_STMT_IMPORT, span.Range{}, specs, nil, false}
 
 	// the second arg set to `true` for stmt like: `import type * as Types`
@@ -959,7 +960,7 @@ func (p *Parser) importDec() (Node, error) {
 	}
 
 	// `from` is required if there is any import clause
-	if typDec || tok.value != T_STRING {
+	if hasClause {
 		if from := p.lexer.Next(); !IsName(from, "from", false) {
 			return nil, p.errorTok(from)
 		}
@@ -1569,7 +1570,7 @@ func (p *Parser) classElem(inDeclare bool) (Node, error) {
 			return nil, p.errorAt(ahead.value, ahead.rng, ERR_ESCAPE_IN_KEYWORD)
 		}
 		return p.method(beginLoc, nil, accMod, span.Range{}, false, PK_METHOD, false, true, true, true, static, beginLoc, declare, abstract, override, nil)
-	} else if p.aheadIsArgList(ahead) {
+	} else if p.aheadIsArgList(ahead) && !fieldLoc.Empty() {
 		key := &Ident{N_NAME, fieldLoc, fieldName, false, escape, span.Range{}, true, p.newTypInfo(N_STMT_CLASS)}
 		return p.method(beginLoc, key, accMod, span.Range{}, false, PK_METHOD, false, false, false, true, false, beginLoc, false, false, false, nil)
 	} else if ahead.value == T_MUL {
@@ -2028,8 +2029,7 @@ func (p *Parser) retStmt() (Node, error) {
 
 func (p *Parser) aheadIsLabel(tok *Token) bool {
 	if tok.value == T_NAME {
-		ahead := p.lexer.PeekGrow()
-		return ahead.value == T_COLON
+		return p.lexer.Peek2nd().value == T_COLON
 	}
 	return false
 }
@@ -2420,6 +2420,7 @@ func (p *Parser) forStmt() (Node, error) {
 	scope := p.symtab.EnterScope(false, false, true)
 	scope.AddKind(SPK_LOOP_DIRECT)
 	tok = p.lexer.Peek()
+	startWithLet := IsName(tok, "let", false)
 
 	var init Node
 	var err error
@@ -2448,6 +2449,8 @@ func (p *Parser) forStmt() (Node, error) {
 		return nil, p.errorTok(tok)
 	} else if isOf && !await && init != nil && init.Type() == N_NAME && init.(*Ident).val == "async" {
 		return nil, p.errorAtLoc(init.Range(), ERR_LHS_OF_FOR_OF_CANNOT_ASYNC)
+	} else if isOf && startWithLet && init != nil && init.Type() != N_STMT_VAR_DEC {
+		return nil, p.errorAtLoc(init.Range(), ERR_LHS_OF_FOR_OF_CANNOT_LET)
 	}
 
 	// the init of const is only omittable if it's the left of for-in or for-of
@@ -2487,10 +2490,11 @@ func (p *Parser) forStmt() (Node, error) {
 			if len(varDec.decList) > 1 {
 				return nil, p.errorAtLoc(varDec.decList[1].Range(), ERR_DUP_BINDING)
 			}
-			if p.scope().IsKind(SPK_STRICT) {
-				for _, dec := range varDec.decList {
-					d := dec.(*VarDec)
-					if d.init != nil {
+			for _, dec := range varDec.decList {
+				d := dec.(*VarDec)
+				if d.init != nil {
+					// the initializer is only permitted in the sloppy mode for stmt like: `for (var a = 1 in b) ;`
+					if !isIn || varDec.kind != T_VAR || d.id.Type() != N_NAME || p.scope().IsKind(SPK_STRICT) {
 						et := ERR_FOR_OF_LOOP_HAS_INIT
 						if isIn {
 							et = ERR_FOR_IN_LOOP_HAS_INIT
@@ -3591,6 +3595,11 @@ func (p *Parser) param(methodKind PropKind) (Node, error) {
 			}
 			rng := p.lexer.Next().rng
 			binding = &Ident{N_NAME, p.finRng(rng), "this", false, false, span.Range{}, true, p.newTypInfo(N_NAME)}
+		} else if ahead.value == T_DOT_TRI {
+			binding, err = p.patternRest(p.feat&FEAT_BINDING_REST_ELEM_NESTED != 0, false)
+			if err != nil {
+				return nil, err
+			}
 		} else {
 			binding, err = p.bindingPattern()
 			if err != nil {
@@ -3770,8 +3779,6 @@ func (p *Parser) bindingPattern() (Node, error) {
 		binding, err = p.patternObj()
 	} else if tv == T_BRACKET_L {
 		binding, err = p.patternArr()
-	} else if tv == T_DOT_TRI {
-		binding, err = p.patternRest(p.feat&FEAT_BINDING_REST_ELEM_NESTED != 0, false)
 	} else {
 		binding, err = p.ident(nil, true)
 	}
@@ -4651,6 +4658,9 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if fn, ok := expr.(*ArrowFn); ok && fn.opa.Empty() {
+		return nil, p.errorAtLoc(fn.arrowLoc, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, "=>"))
+	}
 	if !optLoc.Empty() {
 		return nil, p.errorAtLoc(optLoc, ERR_OPT_EXPR_IN_NEW)
 	}
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 9bb658d..95f1405 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -226,6 +226,9 @@ func (p *Parser) tsExprHasTypAnnot(node Node) bool {
 }
 
 func (p *Parser) tsAdvanceHook(ep bool) (ques, not span.Range) {
+	if !p.ts {
+		return
+	}
 	ahead := p.lexer.Peek()
 	av := ahead.value
 	if av == T_HOOK {
-- 
2.43.0


From 0b02023093b2e1ae6a8814f5ae623c6e899e06a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:27:45 +0000
Subject: [PATCH 28/44] fix: strings and arrows in templates, in operator
 within brackets of for heads, private names before in, optional calls,
 new.target and async after new, class heritage and cover grammar misjudged

---
 ecma/estree/convert.go |  23 +------
 ecma/parser/jsx.go     |   1 +
 ecma/parser/lexer.go   |  19 +++---
 ecma/parser/parser.go  | 152 ++++++++++++++++++++++++++++++++++-------
 ecma/parser/symtab.go  |   3 +
 ecma/parser/token.go   |   2 +-
 6 files changed, 146 insertions(+), 54 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 6ac9fab..980f9a7 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -147,28 +147,9 @@ func tplLiteral(tplLoc span.Range, elems []parser.Node, ctx *ConvertCtx) *Templa
 	exprs := make([]Expression, 0)
 	cnt := len(elems)
 	for i, elem := range elems {
-		first := i == 0
 		last := i == cnt-1
-		if elem.Type() != parser.N_LIT_STR {
-			if first || last {
-				lc := locOfRng(tplLoc, ctx.Parser.Source(), ctx)
-				if first {
-					lc.End.Column = lc.Start.Column
-				} else {
-					lc.Start.Column = lc.End.Column
-				}
-				quasis = append(quasis, &TemplateElement{
-					Type:  "TemplateElement",
-					Start: int(tplLoc.Lo),
-					End:   int(tplLoc.Hi),
-					Loc:   lc,
-					Tail:  last,
-					Value: &TemplateElementValue{
-						Cooked: "",
-						Raw:    "",
-					},
-				})
-			}
+		// the chunks and the exprs alternate and the chunk is always the first
+		if i%2 == 1 {
 			exprs = append(exprs, Convert(elem, ctx))
 		} else {
 			str := elem.(*parser.StrLit)
diff --git a/ecma/parser/jsx.go b/ecma/parser/jsx.go
index fee51f2..166dc7c 100644
--- a/ecma/parser/jsx.go
+++ b/ecma/parser/jsx.go
@@ -192,6 +192,7 @@ func (p *Parser) jsxOpen(tok *Token) (Node, error) {
 
 func (p *Parser) jsxExpr(rng span.Range) (Node, error) {
 	p.lexer.PushMode(LM_NONE, true)
+	defer p.leaveIn(p.enterIn())
 
 	locAfterBrace := p.rng()
 
diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 069b208..db3c1c5 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -120,7 +120,8 @@ type LexerState struct {
 	prtVal TokenValue // the value of prev read token
 	prtRng span.Range // the source range of prev read token
 
-	pptVal TokenValue // prev peek
+	lexVal TokenValue // the value of the last scanned token
+	lexRng span.Range // the source range of the last scanned token
 
 	// always save loc of the previous whitespace being skipped
 	// by `skipSpace` in jsx mode
@@ -190,6 +191,9 @@ func (l *Lexer) NextRevise(v TokenValue) *Token {
 	tok := l.readTok()
 	l.state.prtVal = v
 	l.state.prtRng = tok.rng
+	if !l.state.tb.readable() {
+		l.state.lexVal = v
+	}
 	return tok
 }
 
@@ -420,6 +424,8 @@ func (l *Lexer) lexTok() *Token {
 			if metLineTerm {
 				tok.afterLineTerm = true
 			}
+			l.state.lexVal = tok.prevVal()
+			l.state.lexRng = tok.rng
 			return tok
 		}
 		if tok.afterLineTerm || (prt == T_COMMENT && prtAtm) || tok.rng.Lo == 0 {
@@ -669,13 +675,8 @@ func (l *Lexer) aheadIsRegexp() bool {
 		return true
 	}
 
-	// firstly, base on prev read
-	prev := l.state.prtVal
-	if prev == T_ILLEGAL {
-		prev = l.state.pptVal
-	}
-
-	// then try to base on prev peeked
+	// base on the last scanned token, which may be not read by the parser yet
+	prev := l.state.lexVal
 	if prev == T_ILLEGAL {
 		return true
 	}
@@ -690,7 +691,7 @@ func (l *Lexer) aheadIsRegexp() bool {
 
 // reports whether the prev read token is the `in` operator
 func (l *Lexer) prevIsIn() bool {
-	rng := l.state.prtRng
+	rng := l.state.lexRng
 	if l.src.RngText(rng) != "in" {
 		return false
 	}
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index d5ab335..fcabcd7 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1194,15 +1194,20 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 		p.lexer.Next()
 		scope := p.scope()
 		scope.AddKind(SPK_CLASS_EXTEND_SUPER)
+		sloppy := !scope.IsKind(SPK_STRICT)
+		scope.AddKind(SPK_STRICT)
 		super, err = p.lhs(false)
 		scope.EraseKind(SPK_CLASS_EXTEND_SUPER)
+		if sloppy {
+			scope.EraseKind(SPK_STRICT)
+		}
 		if err != nil {
 			return nil, err
 		}
 		if super.Type() == N_EXPR_ARROW {
 			return nil, p.errorAtLoc(super.Range(), ERR_MALFORMED_ARROW_PARAM)
 		}
-		if err := p.checkDefaultVal(super, false, false, false); err != nil {
+		if err := p.checkArg(super, false, false); err != nil {
 			return nil, err
 		}
 	}
@@ -2453,12 +2458,16 @@ func (p *Parser) forStmt() (Node, error) {
 		return nil, p.errorAtLoc(init.Range(), ERR_LHS_OF_FOR_OF_CANNOT_LET)
 	}
 
-	// the init of const is only omittable if it's the left of for-in or for-of
-	if varDec, ok := init.(*VarDecStmt); ok && varDec.kind == T_CONST && !isIn && !isOf {
+	// the init of const or pattern is only omittable if it's the left of for-in or for-of
+	if varDec, ok := init.(*VarDecStmt); ok && !isIn && !isOf {
 		for _, dec := range varDec.decList {
-			if dec := dec.(*VarDec); dec.init == nil {
+			dec := dec.(*VarDec)
+			if dec.init == nil && varDec.kind == T_CONST {
 				return nil, p.errorAtLoc(dec.rng, ERR_CONST_DEC_INIT_REQUIRED)
 			}
+			if dec.init == nil && dec.id.Type() != N_NAME {
+				return nil, p.errorAtLoc(dec.rng, ERR_COMPLEX_BINDING_MISSING_INIT)
+			}
 		}
 	}
 
@@ -2711,8 +2720,11 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			}
 			fnRef.strictFn = ps.IsKind(SPK_STRICT) || async != nil || generator
 			// the function which is the body of `if` is in a block of its own
-			if err := p.addLocalBinding(ps, fnRef, !ps.IsKind(SPK_INTERIM), fnRef.Id.val); err != nil {
-				return nil, err
+			fnRef.ifFn = ps.IsKind(SPK_INTERIM)
+			if !fnRef.ifFn || ps.Local(fnRef.Id.val) == nil {
+				if err := p.addLocalBinding(ps, fnRef, !fnRef.ifFn, fnRef.Id.val); err != nil {
+					return nil, err
+				}
 			}
 		}
 	}
@@ -3283,6 +3295,9 @@ func (p *Parser) addLocalBinding(s *Scope, ref *Ref, checkDup bool, name string)
 	if s == nil {
 		s = p.scope()
 	}
+	if local := s.Local(name); local != nil && local.ifFn && s.Refs[name] == local && !s.varNames[name] {
+		checkDup = false
+	}
 	ok := s.AddLocal(ref, name, checkDup)
 	if ok {
 		return nil
@@ -3791,6 +3806,7 @@ func (p *Parser) bindingPattern() (Node, error) {
 func (p *Parser) patternObj() (Node, error) {
 	rng := p.rng()
 	p.lexer.Next()
+	defer p.leaveIn(p.enterIn())
 
 	props := make([]Node, 0, 5)
 	for {
@@ -4001,6 +4017,7 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 func (p *Parser) patternArr() (Node, error) {
 	rng := p.rng()
 	p.lexer.Next()
+	defer p.leaveIn(p.enterIn())
 
 	elems := make([]Node, 0, 5)
 	for {
@@ -4395,10 +4412,12 @@ func (p *Parser) condExpr(test Node, notGT bool, notHook bool, notColon bool) (N
 		return test, nil
 	}
 
+	notIn := p.enterIn()
 	cons, err := p.assignExpr(true, notGT, false, true)
 	if err != nil {
 		return nil, err
 	}
+	p.leaveIn(notIn)
 
 	_, err = p.nextMustTok(T_COLON)
 	if err != nil {
@@ -4645,12 +4664,19 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 		if id.val != "target" {
 			return nil, p.errorAtLoc(id.Range(), ERR_INVALID_META_PROP)
 		}
+		if id.containsEscape {
+			return nil, p.errorAtLoc(id.Range(), ERR_ESCAPE_IN_KEYWORD)
+		}
 		if scope.thisScope().IsKind(SPK_GLOBAL) {
 			return nil, p.errorAtLoc(rng, ERR_META_PROP_OUTSIDE_FN)
 		}
 
 		expr = &MetaProp{N_META_PROP, p.finRng(rng), meta, id}
-		return expr, nil
+		if callee {
+			return expr, nil
+		}
+		expr, _, err = p.callExpr(expr, true, false, span.Range{}, false)
+		return expr, err
 	}
 
 	var optLoc span.Range
@@ -4873,6 +4899,8 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 				}
 			} else {
 				callee = &CallExpr{N_EXPR_CALL, p.finRng(rng), callee, args, directOpt, span.Range{}, ti}
+				// only the call which directly follows `?.` is optional
+				directOpt = false
 			}
 		} else if tv == T_BRACKET_L || tv == T_DOT || tv == T_OPT_CHAIN {
 			callee, fo, err = p.memberExpr(callee, true, root, firstOpt)
@@ -4930,10 +4958,12 @@ func (p *Parser) importCall(tok *Token) (Node, error) {
 
 	if ahead.value == T_PAREN_L && p.feat&FEAT_DYNAMIC_IMPORT != 0 {
 		p.lexer.Next()
+		notIn := p.enterIn()
 		src, err := p.assignExpr(true, false, false, false)
 		if err != nil {
 			return nil, err
 		}
+		p.leaveIn(notIn)
 		_, err = p.nextMustTok(T_PAREN_R)
 		if err != nil {
 			return nil, err
@@ -4981,6 +5011,7 @@ func (p *Parser) tplExpr(tag Node, ts bool) (Node, error) {
 
 			var expr Node
 			var err error
+			notIn := p.enterIn()
 			if !ts {
 				expr, err = p.expr()
 			} else {
@@ -4989,6 +5020,7 @@ func (p *Parser) tplExpr(tag Node, ts bool) (Node, error) {
 			if err != nil {
 				return nil, err
 			}
+			p.leaveIn(notIn)
 			elems = append(elems, expr)
 		} else {
 			return nil, p.errorTok(tok)
@@ -5254,6 +5286,29 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 		}
 		return arg, nil
 	case N_PAT_REST:
+		n := arg.(*RestPat)
+		if _, err := p.argToParam(n.arg, depth+1, false, destruct, inParen); err != nil {
+			return nil, err
+		}
+		return arg, nil
+	case N_PAT_ARRAY:
+		n := arg.(*ArrPat)
+		for _, elem := range n.elems {
+			if elem != nil {
+				if _, err := p.argToParam(elem, depth+1, false, destruct, inParen); err != nil {
+					return nil, err
+				}
+			}
+		}
+		return arg, nil
+	case N_PAT_ASSIGN:
+		n := arg.(*AssignPat)
+		if _, err := p.argToParam(n.lhs, depth+1, false, destruct, inParen); err != nil {
+			return nil, err
+		}
+		if err := p.checkDefaultVal(n.rhs, destruct, destruct, false); err != nil {
+			return nil, err
+		}
 		return arg, nil
 	case N_SPREAD:
 		n := arg.(*Spread)
@@ -5539,6 +5594,7 @@ func (p *Parser) argList(check bool, incall bool, asyncLoc span.Range, noJsx boo
 		return nil, span.Range{}, nil, nil, p.errorTok(ahead)
 	}
 	p.lexer.Next()
+	defer p.leaveIn(p.enterIn())
 
 	var tailingComma span.Range
 	args := make([]Node, 0, 5)
@@ -5619,16 +5675,46 @@ func (p *Parser) checkOp(tok *Token) error {
 // `nullish` indicates that there is at least one nullish expr in previous lhs group
 // bypassing above two params to do the `nullish-can-not-along-with-logic` syntax check as
 // well as in one parse - avoiding to traverse the sub-tree later
+// reads the operand after the operator with the precedence `pcd`
+func (p *Parser) binOperand(pcd int, notIn bool, notColon bool) (Node, error) {
+	tok := p.lexer.Peek()
+	if tok.value == T_NAME_PVT && pcd < TokenKinds[T_IN].Pcd && !notIn && IsName(p.lexer.Peek2nd(), "in", false) {
+		// `#a in b`
+		tok = p.lexer.Next()
+		id := p.pvtRef(tok)
+		if id == nil {
+			return nil, p.errorAtLoc(tok.rng, fmt.Sprintf(ERR_TPL_ALONE_PVT_FIELD, "#"+p.TokText(tok)))
+		}
+		return id, nil
+	}
+	return p.unaryExpr(nil, span.Range{}, notColon)
+}
+
+// builds the reference to the private name `tok`, returns nil if it's not in any class
+func (p *Parser) pvtRef(tok *Token) *Ident {
+	id := &Ident{N_NAME, p.finRng(tok.rng), p.TokText(tok), true, tok.ContainsEscape(), span.Range{}, false, p.newTypInfo(N_NAME)}
+	scope := p.scope().UpperCls()
+	if scope == nil {
+		return nil
+	}
+	ref := NewRef()
+	ref.Id = id
+	ref.Typ = RDT_PVT_FIELD
+	ref.Scope = scope
+	p.danglingPvtRefs = append(p.danglingPvtRefs, ref)
+	return id
+}
+
 func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT bool, notColon bool) (Node, error) {
 	var err error
+	notIn := p.scope().IsKind(SPK_NOT_IN)
 	if lhs == nil {
-		if lhs, err = p.unaryExpr(nil, span.Range{}, notColon); err != nil {
+		if lhs, err = p.binOperand(minPcd-1, notIn, notColon); err != nil {
 			return nil, err
 		}
 	}
 
 	ts := p.ts
-	notIn := p.scope().IsKind(SPK_NOT_IN)
 	for {
 		ahead := p.lexer.Peek()
 		op := ahead.IsBin(notIn, ts)
@@ -5663,7 +5749,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 
 		var rhs Node
 		if op != T_TS_AS {
-			rhs, err = p.unaryExpr(nil, span.Range{}, false)
+			rhs, err = p.binOperand(pcd, notIn, false)
 		} else {
 			rhs, err = p.tsTyp(false, true, false)
 		}
@@ -5714,6 +5800,11 @@ func (p *Parser) memberExpr(obj Node, call bool, root bool, optLoc span.Range) (
 			if obj, err = p.newExpr(true); err != nil {
 				return nil, span.Range{}, err
 			}
+		} else if p.aheadIsAsync(p.lexer.Peek(), false, false) && p.lexer.Peek2nd().value == T_PAREN_L {
+			// `new async()`
+			if obj, err = p.ident(nil, false); err != nil {
+				return nil, span.Range{}, err
+			}
 		} else if obj, err = p.memberExprObj(); err != nil {
 			return nil, span.Range{}, err
 		}
@@ -5792,12 +5883,29 @@ func (p *Parser) memberExprObj() (Node, error) {
 	return p.tsNoNull(obj), nil
 }
 
+// permits the `in` operator until `leaveIn` is called with the returned value, since its prohibition
+// in the head of the for statement does not apply to the exprs enclosed in brackets
+func (p *Parser) enterIn() bool {
+	scope := p.scope()
+	notIn := scope.IsKind(SPK_NOT_IN)
+	scope.EraseKind(SPK_NOT_IN)
+	return notIn
+}
+
+func (p *Parser) leaveIn(notIn bool) {
+	if notIn {
+		p.scope().AddKind(SPK_NOT_IN)
+	}
+}
+
 func (p *Parser) memberExprPropSubscript(obj Node, opt bool) (Node, error) {
 	p.lexer.Next()
+	notIn := p.enterIn()
 	prop, err := p.expr()
 	if err != nil {
 		return nil, err
 	}
+	p.leaveIn(notIn)
 	if _, err := p.nextMustTok(T_BRACKET_R); err != nil {
 		return nil, err
 	}
@@ -5813,20 +5921,15 @@ func (p *Parser) memberExprPropDot(obj Node, opt bool) (Node, error) {
 
 	var prop Node
 	if (ok && tv != T_NUM) || tv == T_NAME_PVT {
-		pvt := tv == T_NAME_PVT
-		id := &Ident{N_NAME, p.finRng(loc), p.TokText(tok), pvt, tok.ContainsEscape(), span.Range{}, kw, p.newTypInfo(N_NAME)}
-		if pvt {
-			scope := p.scope().UpperCls()
-			if scope == nil {
+		if tv == T_NAME_PVT {
+			id := p.pvtRef(tok)
+			if id == nil {
 				return nil, p.errorAtLoc(loc, fmt.Sprintf(ERR_TPL_ALONE_PVT_FIELD, "#"+p.TokText(tok)))
 			}
-			ref := NewRef()
-			ref.Id = id
-			ref.Typ = RDT_PVT_FIELD
-			ref.Scope = scope
-			p.danglingPvtRefs = append(p.danglingPvtRefs, ref)
+			prop = id
+		} else {
+			prop = &Ident{N_NAME, p.finRng(loc), p.TokText(tok), false, tok.ContainsEscape(), span.Range{}, kw, p.newTypInfo(N_NAME)}
 		}
-		prop = id
 	} else {
 		return nil, p.errorTok(tok)
 	}
@@ -5888,7 +5991,8 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 		ahead := p.lexer.Peek()
 		// `ahead.value != T_ARROW` is used to skip checking name when it appears in the param list of arrow expr
 		// for `eval => 42` we should report binding-reserved-word error instead of unexpected-reserved-word error
-		if p.checkName && (ahead.value != T_ARROW || ahead.afterLineTerm) && p.isProhibitedName(nil, name, true, false, false, false) &&
+		checkName := p.checkName || name == "yield" && p.scope().IsKind(SPK_GENERATOR)
+		if checkName && (ahead.value != T_ARROW || ahead.afterLineTerm) && p.isProhibitedName(nil, name, true, false, false, false) &&
 			!(name == "yield" && tok.ContainsEscape() && !p.scope().IsKind(SPK_STRICT)) {
 			if tok.ContainsEscape() {
 				return nil, p.errorAtLoc(p.finRng(loc), ERR_ESCAPE_IN_KEYWORD)
@@ -6181,6 +6285,7 @@ func UnParen(expr Node) Node {
 func (p *Parser) arrLit() (Node, error) {
 	loc := p.rng()
 	p.lexer.Next()
+	defer p.leaveIn(p.enterIn())
 
 	elems := make([]Node, 0, 5)
 	for {
@@ -6256,6 +6361,7 @@ func (p *Parser) spread() (Node, error) {
 func (p *Parser) objLit() (Node, error) {
 	loc := p.rng()
 	p.lexer.Next()
+	defer p.leaveIn(p.enterIn())
 
 	props := make([]Node, 0, 5)
 	p.checkName = false
@@ -6643,7 +6749,7 @@ func (p *Parser) nameOfNode(node Node) string {
 func (p *Parser) isExprOpening(raise bool) (*Token, error) {
 	tok := p.lexer.PeekStmtBegin()
 	tv := tok.value
-	if raise && tv != T_SEMI && tv != T_BRACE_R && tv != T_COMMA && tv != T_PAREN_R && tv != T_BRACKET_R && tv != T_COLON && !tok.afterLineTerm && tv != T_EOF {
+	if raise && tv != T_SEMI && tv != T_BRACE_R && tv != T_TPL_SPAN && tv != T_TPL_TAIL && tv != T_COMMA && tv != T_PAREN_R && tv != T_BRACKET_R && tv != T_COLON && !tok.afterLineTerm && tv != T_EOF {
 		errMsg := ERR_UNEXPECTED_TOKEN
 		if tok.value == T_ILLEGAL {
 			if msg, ok := tok.ext.(string); ok {
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 286065b..2cea03a 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -115,6 +115,9 @@ type Ref struct {
 
 	// whether the ref is a function which cannot be redeclared in blocks
 	strictFn bool
+
+	// whether it's a func which is the body of `if`, that func is in a block of its own
+	ifFn bool
 	// whether the ref is declared by `declare`
 	ambient bool
 }
diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index b445291..9c9a832 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -366,7 +366,7 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_STRING, "string", 0, false, false, true},
 
 	{T_TPL_HEAD, "template head", 0, false, true, true},
-	{T_TPL_SPAN, "template span", 0, false, false, false},
+	{T_TPL_SPAN, "template span", 0, false, true, false},
 	{T_TPL_TAIL, "template tail", 0, false, false, false},
 
 	{T_NAME, "identifier", 0, false, false, true},
-- 
2.43.0


From a499eca00858fb16ee2efcab68d9fd198a1c0890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:55 +0000
Subject: [PATCH 29/44] fix: compound assignment to patterns in arguments,
 accesses after arrow bodies, new super, nested parenthesized targets and
 regexps after prefix updates misjudged

---
 ecma/parser/lexer.go  |  8 ++++++++
 ecma/parser/parser.go | 18 ++++++++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index db3c1c5..f407269 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -418,14 +418,22 @@ func (l *Lexer) lexTok() *Token {
 	prtAtm := false
 	// whether a line terminator is before or inside any of the skipped comments
 	metLineTerm := false
+	beginStmt := l.state.beginStmt
 	for {
 		tok := l.readTokWithComment()
 		if tok.value != T_COMMENT {
 			if metLineTerm {
 				tok.afterLineTerm = true
 			}
+			prev := l.state.lexVal
 			l.state.lexVal = tok.prevVal()
 			l.state.lexRng = tok.rng
+			// the operand of the prefix operator may begin with regexp: `++/a/.b`
+			if tok.value == T_INC || tok.value == T_DEC {
+				if prev == T_ILLEGAL || TokenKinds[prev].BeforeExpr || tok.afterLineTerm || beginStmt {
+					l.state.lexVal = T_ADD
+				}
+			}
 			return tok
 		}
 		if tok.afterLineTerm || (prt == T_COMMENT && prtAtm) || tok.rng.Lo == 0 {
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index fcabcd7..6d8510e 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4317,6 +4317,10 @@ func (p *Parser) assignExpr(checkLhs bool, notGT bool, notHook bool, notColon bo
 	if checkLhs && !p.isSimpleLVal(lhs, true, false, true, op != T_ASSIGN) {
 		return nil, p.errorAtLoc(lhs.Range(), ERR_ASSIGN_TO_RVALUE)
 	}
+	// patterns are the targets of `=` only
+	if op != T_ASSIGN && (lhs.Type() == N_PAT_ARRAY || lhs.Type() == N_PAT_OBJ) {
+		return nil, p.errorAtLoc(lhs.Range(), ERR_ASSIGN_TO_RVALUE)
+	}
 
 	if err := p.checkArg(rhs, false, false); err != nil {
 		return nil, err
@@ -4631,6 +4635,9 @@ func (p *Parser) lhs(notColon bool) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if fn, ok := node.(*ArrowFn); ok && fn.opa.Empty() {
+		return node, nil
+	}
 	node = p.tsNoNull(node)
 	if p.lexer.Peek().value == T_DOT {
 		node, _, err = p.callExpr(node, true, false, span.Range{}, notColon)
@@ -4693,6 +4700,9 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 	if expr.Type() == N_IMPORT_CALL {
 		return nil, p.errorAtLoc(expr.Range(), ERR_DYNAMIC_IMPORT_CANNOT_NEW)
 	}
+	if expr.Type() == N_SUPER {
+		return nil, p.errorAtLoc(expr.Range(), ERR_UNEXPECTED_TOKEN)
+	}
 
 	var args []Node
 	var typArgs Node
@@ -4830,6 +4840,10 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 		if err != nil {
 			return nil, span.Range{}, err
 		}
+		// arrow function is not the operand of any other operator: `() => a++ .b`
+		if fn, ok := callee.(*ArrowFn); ok && fn.opa.Empty() {
+			return callee, span.Range{}, nil
+		}
 		callee = p.tsNoNull(callee)
 	} else {
 		rng = callee.Range()
@@ -5377,6 +5391,10 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 		return rest, nil
 	case N_EXPR_PAREN:
 		sub := arg.(*ParenExpr).expr
+		// `((a)) = b`
+		for destruct && sub.Type() == N_EXPR_PAREN {
+			sub = sub.(*ParenExpr).expr
+		}
 		if !destruct || !p.isPrimitive(sub) && !p.isTsLhs(sub) && sub.Type() != N_EXPR_MEMBER {
 			st := sub.Type()
 			if !(destruct && st == N_EXPR_BIN && sub.(*BinExpr).op == T_TS_AS) {
-- 
2.43.0


From db9078e5463ff3536b0735d02638c024b9149885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:35 +0000
Subject: [PATCH 30/44] fix: numbers such as 1_0 and 08.5, escaped surrogate
 pairs, \0 in templates, bad escapes in tagged templates, escapes in names,
 duplicated regexp flags, unterminated strings as keys and dangling decorators
 misjudged

---
 ecma/parser/lexer.go  | 143 +++++++++++++++++++++++++++++++-----------
 ecma/parser/parser.go |  11 ++--
 2 files changed, 114 insertions(+), 40 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index f407269..fdebead 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1,11 +1,13 @@
 package parser
 
 import (
+	"bytes"
 	"container/list"
 	"fmt"
 	"strconv"
 	"strings"
 	"unicode"
+	"unicode/utf16"
 	"unicode/utf8"
 
 	span "github.com/hsiaosiyuan0/mole/span"
@@ -545,6 +547,7 @@ func (l *Lexer) readTplSpan() *Token {
 
 func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err string, legacyOctalEscapeSeq bool, errEscape string) {
 	text = make([]byte, 0, 10)
+	units := codeUnits{}
 	for {
 		ofst = l.src.Ofst()
 		pos = l.src.Pos()
@@ -568,6 +571,11 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 				continue
 			}
 
+			if nc == span.EOF {
+				err = ERR_UNTERMINATED_TPL
+				return
+			}
+
 			// since the bad escape sequence is permitted in tagged template
 			// here advance the cursor if `errEscape` already occurred
 			if errEscape != "" {
@@ -575,27 +583,20 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 				continue
 			}
 
-			r, e, lo := l.readEscapeSeq()
+			r, e, lo := l.readEscapeSeq(true)
 			if !legacyOctalEscapeSeq && lo {
 				legacyOctalEscapeSeq = lo
 			}
 
 			// just records the first occurred escape error
-			if errEscape == "" {
-				if e != "" {
-					errEscape = e
-				} else if r == utf8.RuneError {
-					errEscape = ERR_BAD_ESCAPE_SEQ
-				}
-			}
-
-			if r == span.EOF {
-				err = ERR_UNTERMINATED_TPL
-				return
+			if e != "" {
+				errEscape = e
+				continue
 			}
-			text = utf8.AppendRune(text, r)
+			text = units.append(text, r)
 		} else if c == utf8.RuneError {
 			errEscape = ERR_BAD_RUNE
+			l.src.Read()
 		} else if c == span.EOF {
 			err = ERR_UNTERMINATED_TPL
 			return
@@ -1095,16 +1096,20 @@ func (l *Lexer) readRegexp(tok *Token) *Token {
 	var err *FixedOfstErr
 	var fs []byte
 	if l.aheadIsIdPart(false) {
-		fs, _, err = l.readIdPart(false)
+		var escape bool
+		fs, escape, err = l.readIdPart(false)
 		if err != nil {
 			return l.errTokOfst(nil, err.msg, err.ofst)
 		}
+		if escape {
+			return l.errTokMsg(tok, ERR_INVALID_REGEXP_FLAG)
+		}
 		i = len(fs)
 	}
 
 	if l.feat&FEAT_CHK_REGEXP_FLAGS != 0 {
-		for _, f := range fs {
-			if !l.isLegalFlag(rune(f)) {
+		for i, f := range fs {
+			if !l.isLegalFlag(rune(f)) || bytes.IndexByte(fs[:i], f) != -1 {
 				return l.errTokMsg(tok, ERR_INVALID_REGEXP_FLAG)
 			}
 		}
@@ -1150,6 +1155,7 @@ func (l *Lexer) readStr() *Token {
 
 	var buf []byte
 	start := tok.txt.Lo
+	units := codeUnits{}
 	for {
 		c := l.src.Read()
 		if c == span.EOF {
@@ -1168,7 +1174,7 @@ func (l *Lexer) readStr() *Token {
 				}
 				l.readLineTerm() // LineContinuation
 			} else {
-				r, err, lo := l.readEscapeSeq()
+				r, err, lo := l.readEscapeSeq(false)
 				if !legacyOctalEscapeSeq && lo {
 					legacyOctalEscapeSeq = lo
 				}
@@ -1190,7 +1196,7 @@ func (l *Lexer) readStr() *Token {
 					}
 				}
 
-				buf = utf8.AppendRune(buf, r)
+				buf = units.append(buf, r)
 			}
 		} else if l.IsLineTerminator(c) {
 			return l.errTokMsg(tok, ERR_UNTERMINATED_STR)
@@ -1206,12 +1212,38 @@ func (l *Lexer) readStr() *Token {
 
 	if buf != nil {
 		tok.text = util.Bytes2str(&buf)
+		if len(buf) == 0 {
+			// there are only line continuations
+			tok.txt.Lo = tok.txt.Hi
+		}
 	}
 
 	tok.ext = &TokExtStr{open, legacyOctalEscapeSeq}
 	return l.finToken(tok, T_STRING)
 }
 
+// combines the escaped surrogate pairs
+type codeUnits struct {
+	lead rune // the last lead surrogate
+	ofst int  // the length of the text which ends with that
+}
+
+// appends the character produced by the escape sequence
+func (c *codeUnits) append(text []byte, r rune) []byte {
+	if c.lead != 0 && c.ofst == len(text) {
+		if pair := utf16.DecodeRune(c.lead, r); pair != utf8.RuneError {
+			c.lead = 0
+			return utf8.AppendRune(text[:len(text)-utf8.RuneLen(utf8.RuneError)], pair)
+		}
+	}
+	text = utf8.AppendRune(text, r)
+	c.lead, c.ofst = 0, len(text)
+	if r >= 0xd800 && r < 0xdc00 {
+		c.lead = r
+	}
+	return text
+}
+
 func (l *Lexer) readJsxStr() *Token {
 	tok := l.newToken()
 	open := l.src.Read()
@@ -1232,7 +1264,8 @@ func (l *Lexer) readJsxStr() *Token {
 	return l.finToken(tok, T_STRING)
 }
 
-func (l *Lexer) readEscapeSeq() (r rune, errMsg string, octalEscapeSeq bool) {
+// `tpl` indicates whether the escape sequence is in the template literal
+func (l *Lexer) readEscapeSeq(tpl bool) (r rune, errMsg string, octalEscapeSeq bool) {
 	c := l.src.Read()
 	switch c {
 	case 'b':
@@ -1254,10 +1287,20 @@ func (l *Lexer) readEscapeSeq() (r rune, errMsg string, octalEscapeSeq bool) {
 		r = '\v'
 		return
 	case '0', '1', '2', '3', '4', '5', '6', '7':
+		if tpl {
+			if c == '0' && !IsDecimalDigit(l.src.Peek()) {
+				return
+			}
+			return utf8.RuneError, ERR_TPL_LEGACY_OCTAL_ESCAPE_IN, false
+		}
 		var i int
 		r, errMsg, i = l.readOctalEscapeSeq(c)
-		octalEscapeSeq = r != 0 || i != 1
+		octalEscapeSeq = r != 0 || i != 1 || IsDecimalDigit(l.src.Peek())
 		return
+	case '8', '9':
+		if tpl {
+			return utf8.RuneError, ERR_BAD_ESCAPE_SEQ, false
+		}
 	case 'x':
 		r, errMsg = l.readHexEscapeSeq()
 		return
@@ -1279,9 +1322,6 @@ func (l *Lexer) readOctalEscapeSeq(first rune) (rune, string, int) {
 	octal = append(octal, first)
 	zeroToThree := first >= '0' && first <= '3'
 	i := 1
-	if l.IsMode(LM_TEMPLATE) {
-		return utf8.RuneError, ERR_TPL_LEGACY_OCTAL_ESCAPE_IN, 0
-	}
 	for {
 		if !zeroToThree && i == 2 || zeroToThree && i == 3 {
 			break
@@ -1302,10 +1342,11 @@ func (l *Lexer) readOctalEscapeSeq(first rune) (rune, string, int) {
 
 func (l *Lexer) readHexEscapeSeq() (rune, string) {
 	hex := [2]rune{}
-	hex[0] = l.src.Read()
-	hex[1] = l.src.Read()
-	if !IsHexDigit(hex[0]) || !IsHexDigit(hex[1]) {
-		return utf8.RuneError, ERR_BAD_ESCAPE_SEQ
+	for i := range hex {
+		if !IsHexDigit(l.src.Peek()) {
+			return utf8.RuneError, ERR_BAD_ESCAPE_SEQ
+		}
+		hex[i] = l.src.Read()
 	}
 	r, err := strconv.ParseInt(string(hex[:]), 16, 32)
 	if err != nil {
@@ -1361,9 +1402,10 @@ func (l *Lexer) readNum() *Token {
 				} else {
 					return l.readOctalNum(tok, 1)
 				}
-			} else {
+			} else if l.IsMode(LM_STRICT) {
 				return l.errTokMsg(tok, ERR_INVALID_NUMBER)
 			}
+			return l.readLegacyDecimalNum(tok)
 		}
 	}
 	return l.readDecimalNum(tok, c)
@@ -1372,10 +1414,10 @@ func (l *Lexer) readNum() *Token {
 func (l *Lexer) readDecimalNum(tok *Token, first rune) *Token {
 	if first != '.' && first != '0' {
 		c := l.src.Peek()
-		if c != 'e' && c != 'E' && c != 'n' && IsIdStart(c) {
+		if c != 'e' && c != 'E' && c != 'n' && c != '_' && IsIdStart(c) {
 			return l.errTokOfst(nil, ERR_IDENT_AFTER_NUMBER, l.src.Ofst())
 		}
-		if err := l.readDecimalDigits(true); err != "" {
+		if err := l.readDecimalDigits(true, true); err != "" {
 			if err == ERR_NUM_SEP_END {
 				tok := l.newToken()
 				return l.errTokOfst(tok, err, l.src.Ofst()-1)
@@ -1384,6 +1426,19 @@ func (l *Lexer) readDecimalNum(tok *Token, first rune) *Token {
 		}
 	}
 
+	return l.readDecimalTail(tok, first, true)
+}
+
+// reads the decimal such as `08` and `0189.5`, its leading zero is already consumed
+func (l *Lexer) readLegacyDecimalNum(tok *Token) *Token {
+	for IsDecimalDigit(l.src.Peek()) {
+		l.src.Read()
+	}
+	return l.readDecimalTail(tok, '0', false)
+}
+
+// reads the fraction, the exponent and the suffix
+func (l *Lexer) readDecimalTail(tok *Token, first rune, bigint bool) *Token {
 	float := false
 	if first != '.' && l.src.AheadIsCh('.') || first == '.' {
 		if l.src.AheadIsCh('.') {
@@ -1391,7 +1446,7 @@ func (l *Lexer) readDecimalNum(tok *Token, first rune) *Token {
 			float = true
 		}
 		// read the fraction part
-		if err := l.readDecimalDigits(true); err != "" {
+		if err := l.readDecimalDigits(true, false); err != "" {
 			if err == ERR_NUM_SEP_END {
 				tok := l.newToken()
 				return l.errTokMsg(tok, err)
@@ -1408,7 +1463,7 @@ func (l *Lexer) readDecimalNum(tok *Token, first rune) *Token {
 		exp = true
 	}
 
-	if first != '.' && !float && !exp {
+	if bigint && first != '.' && !float && !exp {
 		if tok := l.bigintSuffix(); tok != nil {
 			return l.errTokMsg(tok, ERR_IDENT_AFTER_NUMBER)
 		}
@@ -1433,11 +1488,15 @@ func (l *Lexer) readExpPart() string {
 	if l.src.AheadIsChOr('+', '-') {
 		l.src.Read()
 	}
-	return l.readDecimalDigits(false)
+	return l.readDecimalDigits(false, false)
 }
 
-func (l *Lexer) readDecimalDigits(opt bool) string {
+// `rest` indicates whether the first digit is already consumed
+func (l *Lexer) readDecimalDigits(opt bool, rest bool) string {
 	i := 0
+	if rest {
+		i = 1
+	}
 
 	var last rune
 	for {
@@ -1540,6 +1599,8 @@ func (l *Lexer) readOctalNum(tok *Token, i int) *Token {
 			last = c
 			l.src.Read()
 			i += 1
+		} else if legacy && IsDecimalDigit(c) {
+			return l.readLegacyDecimalNum(tok)
 		} else {
 			break
 		}
@@ -1610,8 +1671,13 @@ type FixedOfstErr struct {
 }
 
 func (l *Lexer) readIdStart() (rune, bool, *FixedOfstErr) {
+	ofst := l.src.Ofst()
 	c := l.src.Read()
-	return l.readUnicodeEscape(c, true)
+	r, escape, err := l.readUnicodeEscape(c, true)
+	if err == nil && escape && !IsIdStart(r) {
+		return utf8.RuneError, escape, &FixedOfstErr{ERR_INVALID_UNICODE_ESCAPE, ofst}
+	}
+	return r, escape, err
 }
 
 func (l *Lexer) readIdPart(jsx bool) (rs []byte, containsEscape bool, err *FixedOfstErr) {
@@ -1654,7 +1720,11 @@ func (l *Lexer) readUnicodeEscape(c rune, id bool) (r rune, containsEscape bool,
 
 func (l *Lexer) readUnicodeEscapeSeq(id bool, start uint32) (rune, *FixedOfstErr) {
 	if l.src.AheadIsCh('{') {
-		return l.readCodepoint()
+		r, err := l.readCodepoint()
+		if err == nil && id && (!IsIdStart(r) && !IsIdPart(r) || r == '\\') {
+			return utf8.RuneError, &FixedOfstErr{ERR_INVALID_UNICODE_ESCAPE, start}
+		}
+		return r, err
 	}
 	return l.readHex4Digits(id, start)
 }
@@ -1836,6 +1906,7 @@ func (l *Lexer) errTokOfst(tok *Token, msg string, ofst uint32) *Token {
 		tok = l.newToken()
 	}
 	tok.rng.Lo = ofst
+	tok.txt = span.Range{}
 	tok.ext = msg
 	return tok
 }
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 6d8510e..34ec16b 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -369,7 +369,6 @@ func (p *Parser) stmt() (node Node, err error) {
 	scope := p.scope()
 	interim := scope.IsKind(SPK_INTERIM)
 	allowDec := !interim
-	checkHangingDec := true
 
 	coverProps := len(p.coverProps)
 	labels, ctx := p.pendingLabels, p.stmtCtx
@@ -462,7 +461,11 @@ func (p *Parser) stmt() (node Node, err error) {
 			return nil, err
 		}
 		p.hangingDecorators = ds
-		checkHangingDec = false
+		// the decorated declaration
+		if ahead := p.lexer.PeekStmtBegin(); ahead.value == T_EOF {
+			return nil, p.errorTok(ahead)
+		}
+		return p.stmt()
 	} else if tok.value == T_SEMI {
 		node, err = p.emptyStmt()
 	} else if tok.value == T_EOF {
@@ -473,7 +476,7 @@ func (p *Parser) stmt() (node Node, err error) {
 
 	if err != nil {
 		return nil, err
-	} else if node == nil && checkHangingDec {
+	} else if node == nil {
 		return nil, p.errorTok(tok)
 	}
 
@@ -494,7 +497,7 @@ func (p *Parser) stmt() (node Node, err error) {
 		}
 	}
 
-	if checkHangingDec && len(p.hangingDecorators) != 0 {
+	if len(p.hangingDecorators) != 0 {
 		n := p.hangingDecorators[0]
 		return nil, p.errorAtLoc(n.Range(), ERR_DECORATOR_INVALID_POSITION)
 	}
-- 
2.43.0


From 9177449dafa45f417ad381290ad06dcd4ed030ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:17 +0000
Subject: [PATCH 31/44] fix: constructor before a line break, operators after
 arrow bodies on the next line and duplicated namespace exports misjudged

---
 ecma/parser/parser.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 34ec16b..e2e23d2 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -315,7 +315,9 @@ func (p *Parser) checkExp(exps []*ExportDec) error {
 			subnames = make([]Node, 0, len(exp.specs))
 			for _, spec := range exp.specs {
 				s := spec.(*ExportSpec)
-				if s.id != nil && !s.tsTyp {
+				if s.ns {
+					subnames = append(subnames, s.local)
+				} else if s.id != nil && !s.tsTyp {
 					subnames = append(subnames, s.id)
 				}
 			}
@@ -3933,7 +3935,7 @@ func (p *Parser) isField(static bool, getter bool) (bool, *Token) {
 		return isField, ahead
 	}
 
-	return ahead.afterLineTerm, ahead
+	return ahead.afterLineTerm && !p.aheadIsArgList(ahead), ahead
 }
 
 func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (Node, span.Range, error) {
@@ -4402,6 +4404,9 @@ func (p *Parser) condExpr(test Node, notGT bool, notHook bool, notColon bool) (N
 	if notHook {
 		return test, nil
 	}
+	if fn, ok := test.(*ArrowFn); ok && fn.opa.Empty() {
+		return test, nil
+	}
 
 	hook := p.advanceIfHook()
 	if hook == nil {
@@ -5734,6 +5739,10 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 			return nil, err
 		}
 	}
+	// arrow function is not the operand of any operator
+	if fn, ok := lhs.(*ArrowFn); ok && fn.opa.Empty() {
+		return lhs, nil
+	}
 
 	ts := p.ts
 	for {
@@ -5901,6 +5910,9 @@ func (p *Parser) memberExprObj() (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if fn, ok := obj.(*ArrowFn); ok && fn.opa.Empty() {
+		return nil, p.errorAtLoc(fn.arrowLoc, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, "=>"))
+	}
 	return p.tsNoNull(obj), nil
 }
 
-- 
2.43.0


From 09c2bb12e2e14e6268288e0471e79c7fc8f55d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:42 +0000
Subject: [PATCH 32/44] fix: rest elements with initializers, keywords as
 shorthand names with defaults, property keys of let patterns, reserved names
 in catch params, valueless keys in default values and await in arrows of
 static blocks misjudged

---
 ecma/parser/parser.go | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index e2e23d2..3fc1693 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1926,7 +1926,10 @@ func (p *Parser) tryStmt() (Node, error) {
 			if param.Type() == N_NAME {
 				scope.simpleCatch = param.(*Ident).val
 			}
-			names, _, _ := p.collectNames([]Node{param})
+			names, _, err := p.collectNames([]Node{param})
+			if err != nil {
+				return nil, err
+			}
 			for _, nameNode := range names {
 				id := nameNode.(*Ident)
 				if ok := p.isProhibitedName(nil, id.val, true, true, false, false); ok {
@@ -3880,12 +3883,15 @@ func (p *Parser) patternProp() (Node, error) {
 	var value Node
 	if tok.value == T_COLON {
 		p.lexer.Next()
+		if ahead := p.lexer.Peek(); ahead.value == T_DOT_TRI {
+			return nil, p.errorTok(ahead)
+		}
 		value, err = p.bindingElem(false)
 		if err != nil {
 			return nil, err
 		}
 	} else if assign {
-		if key.Type() == N_NAME && compute.Empty() {
+		if key.Type() == N_NAME && compute.Empty() && !isReservedName(key.(*Ident).val) {
 			return p.patternAssign(key, true)
 		}
 		return nil, p.errorTok(tok)
@@ -3982,7 +3988,7 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 		}
 		// stmt `let { let } = {}` will raise error `let is disallowed as a lexically bound name` in sloppy mode
 		if !scope.IsKind(SPK_STRICT) && scope.IsKind(SPK_LEXICAL_DEC) {
-			if !tok.ContainsEscape() && (keyName == "let" || keyName == "const") {
+			if !tok.ContainsEscape() && (keyName == "let" || keyName == "const") && p.lexer.Peek().value != T_COLON {
 				return nil, span.Range{}, p.errorAtLoc(rng, fmt.Sprintf(ERR_TPL_FORBIDDEN_LEXICAL_NAME, keyName))
 			}
 		}
@@ -4077,7 +4083,8 @@ func (p *Parser) bindingElem(asProp bool) (Node, error) {
 	} else if tok.value == T_BRACKET_L {
 		binding, err = p.patternArr()
 	} else if tok.value == T_DOT_TRI {
-		binding, err = p.patternRest(!asProp, false)
+		// the rest element cannot have initializer
+		return p.patternRest(!asProp, false)
 	} else {
 		binding, err = p.ident(nil, true)
 	}
@@ -5135,6 +5142,9 @@ func (p *Parser) checkDefaultVal(val Node, yield bool, destruct bool, field bool
 		}
 	case N_PROP:
 		n := val.(*Prop)
+		if n.value == nil { // only permitted in patterns, see `checkCoverProps`
+			return nil
+		}
 		if err := p.checkDefaultVal(n.value, yield, destruct, field); err != nil {
 			return err
 		}
@@ -6162,7 +6172,8 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 	}
 
 	var body Node
-	scope.AddKind(SPK_ARROW)
+	// `await` is permitted as name in the bodies of the arrow functions in static blocks
+	scope.AddKind(SPK_ARROW).EraseKind(SPK_STATIC_BLOCK)
 	if p.lexer.Peek().value == T_BRACE_L {
 		body, err = p.fnBody()
 		if err != nil {
@@ -6481,14 +6492,16 @@ func (p *Parser) propData() (Node, error) {
 	if assign && (key.Type() != N_NAME || !compute.Empty()) {
 		return nil, p.errorAtLoc(opLoc, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, "="))
 	}
-	if value == nil && key.Type() == N_NAME {
+	if (value == nil || assign) && key.Type() == N_NAME {
 		id := key.(*Ident)
 		name := id.val
 		if id.kw && name != "eval" && name != "arguments" || isReservedName(name) {
 			return nil, p.errorAtLoc(id.rng, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, id.val))
 		}
 		shorthand = true
-		value = key
+		if value == nil {
+			value = key
+		}
 	}
 	prop := &Prop{N_PROP, p.finRng(loc), key, opLoc, value, !compute.Empty(), false, shorthand, assign, PK_INIT, ACC_MOD_NONE}
 	if assign || value == nil {
-- 
2.43.0


From abebcc2298f2459a68d0e1a1f9cbb12f36abcb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:58 +0000
Subject: [PATCH 33/44] fix: errors without location, crashes on imports of
 require, decorated fields, type arguments of literals, return in namespaces
 and keys without type, feature switches of fields, generators, patterns and
 nested rest misapplied

---
 ecma/parser/parser.go | 53 ++++++++++++++++++++++++++++++++-----------
 ecma/parser/ts.go     | 18 +++++++++++----
 ecma/parser/ts_ast.go |  5 +---
 3 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 3fc1693..075c054 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -246,7 +246,7 @@ func (p *Parser) Prog() (Node, error) {
 
 	stmts, err := p.stmts(T_ILLEGAL)
 	if err != nil {
-		return nil, err
+		return nil, p.locatedErr(err)
 	}
 
 	pg.stmts = stmts
@@ -354,6 +354,17 @@ func (p *Parser) checkExp(exps []*ExportDec) error {
 
 var errEof = errors.New("eof")
 
+// gives location to the errors which are only the signals between productions
+func (p *Parser) locatedErr(err error) error {
+	if err == errEof || err == errTypArgMaybeJsx {
+		return p.errorTok(p.lexer.Peek())
+	}
+	if e, ok := err.(ErrTypArgMissingGT); ok {
+		return p.errorAtLoc(e.rng, e.Error())
+	}
+	return err
+}
+
 // the context of the statement which is not in a statement list, function declarations
 // are permitted in some of them
 type stmtCtx uint8
@@ -1587,9 +1598,6 @@ func (p *Parser) classElem(inDeclare bool) (Node, error) {
 		if !isField && !readonlyLoc.Empty() {
 			return nil, p.errorAtLoc(readonlyLoc, ERR_METHOD_CANNOT_READONLY)
 		}
-		if p.feat&FEAT_ASYNC_GENERATOR == 0 {
-			return nil, p.errorTok(ahead)
-		}
 		return p.method(beginLoc, nil, accMod, span.Range{}, false, PK_METHOD, true, false, true, true, static, beginLoc, declare, abstract, override, nil)
 	}
 
@@ -1732,6 +1740,15 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 
 	var value Node
 	tok := p.lexer.Peek()
+	if !p.aheadIsArgList(tok) {
+		feat := FEAT_CLASS_PUB_FIELD
+		if id, ok := key.(*Ident); ok && id.pvt {
+			feat = FEAT_CLASS_PRIV_FIELD
+		}
+		if p.feat&feat == 0 {
+			return nil, p.errorTok(tok)
+		}
+	}
 	var assignLoc span.Range
 	if tok.value == T_ASSIGN {
 		assignLoc = p.rng()
@@ -1794,6 +1811,9 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 		ds = p.hangingDecorators
 		rng = ds[0].Range()
 		p.hangingDecorators = nil
+		if ti == nil {
+			ti = NewTypInfo()
+		}
 		ti.decorators = ds
 	}
 	return &Field{N_FIELD, p.finRng(rng), key, isStatic, !compute.Empty(), value, ti}, nil
@@ -2033,7 +2053,7 @@ func (p *Parser) retStmt() (Node, error) {
 	}
 
 	fn := p.scope().UpperFn()
-	if !fn.IsKind(SPK_FUNC) || fn.IsKind(SPK_CLASS) || fn.IsKind(SPK_STATIC_BLOCK) && !fn.IsKind(SPK_ARROW) {
+	if !fn.IsKind(SPK_FUNC) || fn.IsKind(SPK_CLASS) || fn.IsKind(SPK_TS_MODULE) || fn.IsKind(SPK_STATIC_BLOCK) && !fn.IsKind(SPK_ARROW) {
 		return nil, p.errorAtLoc(rng, ERR_ILLEGAL_RETURN)
 	}
 
@@ -3917,9 +3937,6 @@ func (p *Parser) patternProp() (Node, error) {
 func (p *Parser) isField(static bool, getter bool) (bool, *Token) {
 	ahead := p.lexer.Peek()
 	av := ahead.value
-	if p.feat&FEAT_CLASS_PUB_FIELD == 0 {
-		return false, ahead
-	}
 
 	isField := av == T_COLON ||
 		av == T_ASSIGN ||
@@ -4134,6 +4151,9 @@ func (p *Parser) patternRest(arrPat bool, allowNotLast bool) (Node, error) {
 
 	ahead := p.lexer.Peek()
 	av := ahead.value
+	if p.feat&FEAT_BINDING_REST_ELEM_NESTED == 0 {
+		arrPat = false
+	}
 	if av != T_NAME && (!arrPat || av != T_BRACKET_L && av != T_BRACE_L) {
 		if av == T_BRACKET_L || av == T_BRACE_L {
 			return nil, p.errorAt(ahead.value, ahead.rng, ERR_REST_ARG_NOT_BINDING_PATTERN)
@@ -4725,7 +4745,7 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 	ahead := p.lexer.Peek()
 	if p.aheadIsArgList(ahead) {
 		p.pushState()
-		args, _, typArgs, _, err = p.argList(true, true, span.Range{}, false)
+		args, _, typArgs, _, err = p.argList(true, true, span.Range{}, true)
 		if err != nil {
 			// `new A < T`
 			if err == p.errTypArgMissingGT {
@@ -4735,6 +4755,7 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 				p.addLtTok(e.rng.Lo)
 				return &NewExpr{N_EXPR_NEW, p.finRng(rng), expr, nil, span.Range{}, ti}, nil
 			}
+			p.discardState()
 			return nil, err
 		}
 		p.discardState()
@@ -4881,7 +4902,7 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 			// `superTypArgs` is used to represent expr like `(class extends f()<T> {})`
 			args, _, typArgs, superTypArgs, err := p.argList(true, true, span.Range{}, true)
 			if err != nil {
-				if err == p.errTypArgMissingGT && firstOpt.Empty() {
+				if lt && err == p.errTypArgMissingGT && firstOpt.Empty() {
 					p.popState()
 
 					e := err.(ErrTypArgMissingGT)
@@ -4892,6 +4913,9 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 					}
 					return callee, span.Range{}, nil
 				}
+				if lt {
+					p.discardState()
+				}
 				return nil, span.Range{}, err
 			}
 			if lt {
@@ -4900,6 +4924,9 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 
 			if superTypArgs != nil {
 				if wt, ok := callee.(NodeWithTypInfo); ok {
+					if wt.TypInfo() == nil {
+						wt.SetTypInfo(NewTypInfo())
+					}
 					wt.TypInfo().SetSuperTypArgs(superTypArgs)
 				}
 				return callee, span.Range{}, nil
@@ -5171,6 +5198,9 @@ func (p *Parser) isPrimitive(node Node) bool {
 
 // `destruct` indicate whether the parsing state is in destructing assignment or not
 func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inParen bool) (Node, error) {
+	if at := arg.Type(); !destruct && p.feat&FEAT_BINDING_PATTERN == 0 && (at == N_LIT_ARR || at == N_LIT_OBJ || at == N_PAT_ARRAY || at == N_PAT_OBJ) {
+		return nil, p.errorAtLoc(arg.Range(), ERR_UNEXPECTED_TOKEN)
+	}
 	switch arg.Type() {
 	case N_LIT_ARR:
 		n := arg.(*ArrLit)
@@ -6444,9 +6474,6 @@ func (p *Parser) objProp() (Node, error) {
 	}
 
 	if tok.value == T_MUL {
-		if p.feat&FEAT_ASYNC_GENERATOR == 0 {
-			return nil, p.errorTok(tok)
-		}
 		return p.method(span.Range{}, nil, ACC_MOD_NONE, span.Range{}, false, PK_INIT, true, false, false, false, false, span.Range{}, false, false, false, nil)
 	} else if p.aheadIsAsync(tok, true, false) {
 		if tok.ContainsEscape() {
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 95f1405..bacb817 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -671,7 +671,7 @@ func (p *Parser) tsRef(ns Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &TsRef{N_TS_REF, p.finRng(ns.Range()), name, args.Range(), args, span.Range{}}, nil
+	return &TsRef{N_TS_REF, p.finRng(name.Range()), name, args.Range(), args, span.Range{}}, nil
 }
 
 func (p *Parser) tsArr(typ Node) (Node, error) {
@@ -1409,7 +1409,6 @@ func (p *Parser) tsProp(rough bool, canMapped bool, braceL span.Range) (Node, er
 					if err != nil {
 						return nil, err
 					}
-					name.(NodeWithTypInfo).TypInfo().SetReadonly(true)
 
 					if p.lexer.Peek().value == T_HOOK {
 						ques = p.lexer.Next().rng
@@ -1427,7 +1426,7 @@ func (p *Parser) tsProp(rough bool, canMapped bool, braceL span.Range) (Node, er
 		av := ahead.value
 		if av != T_PAREN_L && av != T_LT {
 			p.advanceIfSemi(false)
-			return &TsProp{N_TS_PROP, p.finRng(rng), name, typAnnot, ques, kind, span.Range{}, !roLoc.Empty()}, nil
+			return &TsProp{N_TS_PROP, p.finRng(rng), name, typAnnot, ques, kind, span.Range{}, !roLoc.Empty() || !ro.Empty()}, nil
 		}
 
 		// MethodSignature is deserved
@@ -2126,7 +2125,10 @@ func (p *Parser) tsImportAliasRsh(rng span.Range, typ span.Range, name Node, exp
 		}
 
 		// the arguments count of `require` should be one with type `StrLit`
-		ce := call.(*CallExpr)
+		ce, ok := call.(*CallExpr)
+		if !ok {
+			return nil, p.errorAtLoc(call.Range(), ERR_IMPORT_REQUIRE_STR_LIT_DESERVED)
+		}
 		if len(ce.args) == 0 {
 			return nil, p.errorAt(p.lexer.PrevTok(), p.lexer.PrevTokRng(), ERR_IMPORT_REQUIRE_STR_LIT_DESERVED)
 		}
@@ -2165,7 +2167,10 @@ func (p *Parser) aheadIsTsNS(tok *Token) bool {
 	}
 	str := tok.text
 	ahead := p.lexer.Peek2nd()
-	return (str == "namespace" || str == "as") && !ahead.afterLineTerm
+	if ahead.afterLineTerm {
+		return false
+	}
+	return str == "namespace" && (ahead.value == T_NAME || ahead.IsCtxKw()) || str == "as" && IsName(ahead, "namespace", false)
 }
 
 func (p *Parser) tsNS() (Node, error) {
@@ -2182,6 +2187,9 @@ func (p *Parser) tsNS() (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if as && name.Type() != N_NAME {
+		return nil, p.errorAtLoc(name.Range(), ERR_UNEXPECTED_TOKEN)
+	}
 
 	var blk Node
 	if !as {
diff --git a/ecma/parser/ts_ast.go b/ecma/parser/ts_ast.go
index aa471d8..26fed0b 100644
--- a/ecma/parser/ts_ast.go
+++ b/ecma/parser/ts_ast.go
@@ -439,10 +439,7 @@ func (n *TsProp) Optional() bool {
 }
 
 func (n *TsProp) Readonly() bool {
-	if wt, ok := n.key.(NodeWithTypInfo); ok {
-		return wt.TypInfo().Readonly()
-	}
-	return false
+	return n.readonly
 }
 
 func (n *TsProp) Computed() bool {
-- 
2.43.0


From 9d93891fe6c504c7dcafbf9a00eef2850d42abad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:26 +0000
Subject: [PATCH 34/44] fix: endless loop on union types as type arguments
 after async

---
 ecma/parser/parser.go | 2 +-
 ecma/parser/ts.go     | 8 ++++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 075c054..9d3a06c 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5830,7 +5830,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		ahead = p.lexer.Peek()
 		aheadOp := ahead.IsBin(notIn, ts)
 		kind = TokenKinds[aheadOp]
-		for aheadOp != T_ILLEGAL && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
+		for aheadOp != T_ILLEGAL && !(aheadOp == T_GT && notGT) && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
 			rhs, err = p.binExpr(rhs, kind.Pcd, logic, nullish, notGT, false)
 			if err != nil {
 				return nil, err
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index bacb817..fbd85d5 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -1651,6 +1651,14 @@ func (p *Parser) tsTryTypArgs(asyncLoc span.Range, noJsx bool) (Node, error) {
 // for avoiding lookbehind the process should accept the input as seqExpr then try to
 // transform the subtree of seqExpr to typArgs if its followed by `>`
 func (p *Parser) tsTryTypArgsAfterAsync(asyncLoc span.Range) (Node, error) {
+	p.pushState()
+	node, err := p.tsTypArgs(true, true)
+	if err == nil && p.lexer.Peek().value == T_PAREN_L {
+		p.discardState()
+		return node, nil
+	}
+	p.popState()
+
 	name := &Ident{N_NAME, asyncLoc, p.RngText(asyncLoc), false, false, span.Range{}, true, p.newTypInfo(N_NAME)}
 	binExpr, err := p.binExpr(name, 0, false, false, true, false)
 	if err != nil {
-- 
2.43.0


From 29ad0566f5121eb24e91a13fec2db0c547ddf8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:51 +0000
Subject: [PATCH 35/44] fix: scopes of walked nodes taken from another node,
 events after stop, listeners shared between walks and skipped after a
 removal, events of function and class declarations reported as those of
 expressions

---
 ecma/parser/ast.go         |  8 ++--
 ecma/parser/parser.go      |  4 +-
 ecma/walk/ctx.go           | 97 ++++++++++++++++++++++++--------------
 ecma/walk/visitor.go       | 48 ++++++++++---------
 script/visitor_gen/main.go | 16 ++++---
 5 files changed, 105 insertions(+), 68 deletions(-)

diff --git a/ecma/parser/ast.go b/ecma/parser/ast.go
index 36ac5d9..c1823f5 100644
--- a/ecma/parser/ast.go
+++ b/ecma/parser/ast.go
@@ -1554,7 +1554,7 @@ func (n *ForStmt) Body() Node {
 	return n.body
 }
 
-// #[visitor(Left,Right,Body)]
+// #[visitor(PUSH_SCOPE,Left,Right,Body)]
 type ForInOfStmt struct {
 	typ   NodeType
 	rng   span.Range
@@ -1881,7 +1881,7 @@ func (n *WithStmt) Body() Node {
 	return n.body
 }
 
-// #[visitor(Id,Super,Body)]
+// #[visitor(Id,Super,PUSH_SCOPE,Body)]
 type ClassDec struct {
 	typ     NodeType
 	rng     span.Range
@@ -1924,7 +1924,7 @@ func (n *ClassDec) SetTypInfo(ti *TypInfo) {
 	n.ti = ti
 }
 
-// #[visitor(PUSH_SCOPE,Elems)]
+// #[visitor(Elems)]
 type ClassBody struct {
 	typ   NodeType
 	rng   span.Range
@@ -2047,7 +2047,7 @@ func (n *Field) SetTypInfo(ti *TypInfo) {
 	n.ti = ti
 }
 
-// #[visitor(Body)]
+// #[visitor(PUSH_SCOPE,Body)]
 type StaticBlock struct {
 	typ  NodeType
 	rng  span.Range
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 9d3a06c..de59cf4 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3260,6 +3260,7 @@ func (p *Parser) blockStmt(newScope bool, scopeKind ScopeKind) (*BlockStmt, erro
 		return nil, err
 	}
 
+	block := &BlockStmt{N_STMT_BLOCK, p.finRng(rng), stmts, newScope}
 	if newScope {
 		if scope.IsKind(SPK_GLOBAL) ||
 			(scope.IsKind(SPK_TS_MODULE) && !scope.IsKind(SPK_TS_MODULE_INDIRECT)) {
@@ -3270,8 +3271,9 @@ func (p *Parser) blockStmt(newScope bool, scopeKind ScopeKind) (*BlockStmt, erro
 			}
 		}
 		p.symtab.LeaveScope()
+		scope.Node = block
 	}
-	return &BlockStmt{N_STMT_BLOCK, p.finRng(rng), stmts, newScope}, nil
+	return block, nil
 }
 
 func (p *Parser) aheadIsVarDec(tok *Token) (bool, TokenValue) {
diff --git a/ecma/walk/ctx.go b/ecma/walk/ctx.go
index ae576bd..b17314a 100644
--- a/ecma/walk/ctx.go
+++ b/ecma/walk/ctx.go
@@ -19,59 +19,72 @@ type WalkCtx struct {
 	Root   parser.Node    // the root node to start walking
 	Symtab *parser.SymTab // the symtab associated with the Root
 
-	vc          *VisitorCtx // ctx of current running visitor
-	scopeIdSeed int         // the seed of scope id
-	scopeIds    []int       // 1-based Id of the scope which current Node belongs to, 0 is reserved for the Global scope
-	stop        bool        // whether to stop the walk
+	vc       *VisitorCtx                   // ctx of current running visitor
+	scopeOf  map[parser.Node]*parser.Scope // the scopes and the nodes which introduce them
+	scopeStk []*parser.Scope               // the last one is the scope which current Node belongs to
+	stop     bool                          // whether to stop the walk
 }
 
 func NewWalkCtx(root parser.Node, symtab *parser.SymTab) *WalkCtx {
 	c := &WalkCtx{}
 	c.Visitors = DefaultVisitors
-	c.Listeners = DefaultListeners
+	for t, ls := range DefaultListeners {
+		if ls != nil {
+			c.Listeners[t] = util.NewOrderedMap[string, *Listener]()
+			for elem := ls.Front(); elem != nil; elem = elem.Next() {
+				pair := elem.Value.(*util.KvPair[string, *Listener])
+				c.Listeners[t].Set(pair.Key, pair.Val)
+			}
+		}
+	}
 	c.Root = root
 	c.Symtab = symtab
 	c.vc = &VisitorCtx{c, c.vc, []string{}, root}
-	c.scopeIds = []int{0}
-	c.scopeIdSeed = len(c.scopeIds)
+	c.scopeOf = map[parser.Node]*parser.Scope{}
+	c.scopeStk = []*parser.Scope{nil}
+	if symtab != nil {
+		c.scopeStk[0] = symtab.Root
+		c.collectScopes(symtab.Root)
+	}
 	return c
 }
 
+func (c *WalkCtx) collectScopes(scope *parser.Scope) {
+	if scope.Node != nil {
+		c.scopeOf[scope.Node] = scope
+	}
+	for _, s := range scope.Down {
+		c.collectScopes(s)
+	}
+}
+
+// 1-based Id of the scope which current Node belongs to, 0 is reserved for the Global scope
 func (c *WalkCtx) ScopeId() int {
-	return c.scopeIds[len(c.scopeIds)-1]
+	if scope := c.Scope(); scope != nil {
+		return scope.Id
+	}
+	return 0
 }
 
 func (c *WalkCtx) Scope() *parser.Scope {
-	return c.Symtab.Scopes[c.ScopeId()]
+	return c.scopeStk[len(c.scopeStk)-1]
 }
 
 func (c *WalkCtx) VisitorCtx() *VisitorCtx {
 	return c.vc
 }
 
-type CondNewScope interface {
-	NewScope() bool
-}
-
+// enters the scope introduced by current Node, if any
 func (c *WalkCtx) PushScope() {
-	newScope := true
-	if v, ok := c.vc.Node.(CondNewScope); ok {
-		newScope = v.NewScope()
-	}
-	if newScope {
-		c.scopeIds = append(c.scopeIds, c.scopeIdSeed)
-		c.scopeIdSeed += 1
+	scope, ok := c.scopeOf[c.vc.Node]
+	if !ok {
+		scope = c.Scope()
 	}
+	c.scopeStk = append(c.scopeStk, scope)
 }
 
 func (c *WalkCtx) PopScope() {
-	newScope := true
-	if v, ok := c.vc.Node.(CondNewScope); ok {
-		newScope = v.NewScope()
-	}
-	if newScope {
-		c.scopeIds = c.scopeIds[:len(c.scopeIds)-1]
-	}
+	c.scopeStk = c.scopeStk[:len(c.scopeStk)-1]
 }
 
 func (c *WalkCtx) PushVisitorCtx(node parser.Node, path string) {
@@ -140,9 +153,16 @@ func VisitNode(n parser.Node, key string, ctx *VisitorCtx) {
 	if n == nil {
 		return
 	}
-	ctx.WalkCtx.PushVisitorCtx(n, key)
-	CallVisitor(n.Type(), n, key, ctx.WalkCtx.VisitorCtx())
-	ctx.WalkCtx.PopVisitorCtx()
+	wc := ctx.WalkCtx
+	if sw, ok := ctx.Node.(*parser.SwitchStmt); ok && sw.Test() == n {
+		// the test is outside of the scope of the cases
+		scopes := wc.scopeStk
+		wc.scopeStk = append([]*parser.Scope{}, scopes[:len(scopes)-1]...)
+		defer func() { wc.scopeStk = scopes }()
+	}
+	wc.PushVisitorCtx(n, key)
+	CallVisitor(n.Type(), n, key, wc.VisitorCtx())
+	wc.PopVisitorCtx()
 }
 
 func VisitNodes(n parser.Node, ns []parser.Node, key string, ctx *VisitorCtx) {
@@ -179,16 +199,23 @@ func CallVisitor(t parser.NodeType, n parser.Node, key string, ctx *VisitorCtx)
 
 func CallListener(t parser.NodeType, n parser.Node, key string, ctx *VisitorCtx) {
 	fns := ctx.WalkCtx.Listeners[t]
-	if fns == nil {
+	if fns == nil || ctx.WalkCtx.stop {
 		return
 	}
 
 	elem := fns.Front()
 	for elem != nil {
-		elem.Value.(*util.KvPair[string, *Listener]).Val.Handle(n, key, ctx)
-		if ctx.WalkCtx.stop {
-			break
+		// the listeners may be removed by the handler
+		next := elem.Next()
+		if pair := elem.Value.(*util.KvPair[string, *Listener]); fns.HasKey(pair.Key) {
+			pair.Val.Handle(n, key, ctx)
+			if ctx.WalkCtx.stop {
+				break
+			}
+		}
+		if n := elem.Next(); n != nil {
+			next = n
 		}
-		elem = elem.Next()
+		elem = next
 	}
 }
diff --git a/ecma/walk/visitor.go b/ecma/walk/visitor.go
index 36c2105..007e6a3 100644
--- a/ecma/walk/visitor.go
+++ b/ecma/walk/visitor.go
@@ -1085,8 +1085,8 @@ func VisitTsInterfaceBodyAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitTsDec(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.TsDec)
 
-	CallVisitor(N_TS_DEC_TYP_DEC_BEFORE, n, key, ctx)
-	defer CallVisitor(N_TS_DEC_TYP_DEC_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(n.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(n.Type()), n, key, ctx)
 
 	VisitNode(n.Name(), "Name", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -1100,11 +1100,11 @@ func VisitTsDec(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitTsDecBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_DEC_TYP_DEC_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitTsDecAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_DEC_TYP_DEC_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitSuper(node parser.Node, key string, ctx *VisitorCtx) {
@@ -1243,8 +1243,8 @@ func VisitExportSpecAfter(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitTsPredef(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_NULL_BEFORE, node, key, ctx)
-	CallListener(N_TS_NULL_AFTER, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitJsxEmpty(node parser.Node, key string, ctx *VisitorCtx) {
@@ -1428,8 +1428,8 @@ func VisitDoWhileStmtAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitFnDec(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.FnDec)
 
-	CallVisitor(N_EXPR_FN_BEFORE, n, key, ctx)
-	defer CallVisitor(N_EXPR_FN_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(n.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(n.Type()), n, key, ctx)
 
 	VisitNode(n.Id(), "Id", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -1451,11 +1451,11 @@ func VisitFnDec(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitFnDecBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_FN_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitFnDecAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_FN_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitIdent(node parser.Node, key string, ctx *VisitorCtx) {
@@ -1611,8 +1611,8 @@ func VisitAssignExprAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitClassDec(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.ClassDec)
 
-	CallVisitor(N_EXPR_CLASS_BEFORE, n, key, ctx)
-	defer CallVisitor(N_EXPR_CLASS_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(n.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(n.Type()), n, key, ctx)
 
 	VisitNode(n.Id(), "Id", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -1624,6 +1624,9 @@ func VisitClassDec(node parser.Node, key string, ctx *VisitorCtx) {
 		return
 	}
 
+	ctx.WalkCtx.PushScope()
+	defer ctx.WalkCtx.PopScope()
+
 	VisitNode(n.Body(), "Body", ctx)
 	if ctx.WalkCtx.Stopped() {
 		return
@@ -1631,11 +1634,11 @@ func VisitClassDec(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitClassDecBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_CLASS_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitClassDecAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_CLASS_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitJsxSpreadChild(node parser.Node, key string, ctx *VisitorCtx) {
@@ -1956,6 +1959,9 @@ func VisitAssignPatAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitStaticBlock(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.StaticBlock)
 
+	ctx.WalkCtx.PushScope()
+	defer ctx.WalkCtx.PopScope()
+
 	CallVisitor(N_STATIC_BLOCK_BEFORE, n, key, ctx)
 	defer CallVisitor(N_STATIC_BLOCK_AFTER, n, key, ctx)
 
@@ -2071,6 +2077,9 @@ func VisitTsTypOpAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitForInOfStmt(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.ForInOfStmt)
 
+	ctx.WalkCtx.PushScope()
+	defer ctx.WalkCtx.PopScope()
+
 	CallVisitor(N_STMT_FOR_IN_OF_BEFORE, n, key, ctx)
 	defer CallVisitor(N_STMT_FOR_IN_OF_AFTER, n, key, ctx)
 
@@ -2457,8 +2466,8 @@ func VisitJsxAttrAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitTsNewSig(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.TsNewSig)
 
-	CallVisitor(N_TS_NEW_BEFORE, n, key, ctx)
-	defer CallVisitor(N_TS_NEW_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(n.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(n.Type()), n, key, ctx)
 
 	VisitNode(n.TypParams(), "TypParams", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -2477,11 +2486,11 @@ func VisitTsNewSig(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitTsNewSigBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_NEW_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitTsNewSigAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_NEW_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitForStmt(node parser.Node, key string, ctx *VisitorCtx) {
@@ -3336,9 +3345,6 @@ func VisitTsIntersectTypAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitClassBody(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.ClassBody)
 
-	ctx.WalkCtx.PushScope()
-	defer ctx.WalkCtx.PopScope()
-
 	CallVisitor(N_CLASS_BODY_BEFORE, n, key, ctx)
 	defer CallVisitor(N_CLASS_BODY_AFTER, n, key, ctx)
 
diff --git a/script/visitor_gen/main.go b/script/visitor_gen/main.go
index 15c9000..bc58044 100644
--- a/script/visitor_gen/main.go
+++ b/script/visitor_gen/main.go
@@ -27,6 +27,7 @@ type StructInfo struct {
 	Name      string
 	TypName   string
 	PushScope bool
+	Shared    bool // whether the struct represents more than one node types
 	Methods   []*MethodInfo
 }
 
@@ -48,8 +49,8 @@ func Visit{{ .Name }}(node parser.Node, key string, ctx *VisitorCtx) {
       {{- end }}
 
       {{ if eq $key 0 }}
-        CallVisitor(N_{{ $.TypName | UnPrefix }}_BEFORE, n, key, ctx)
-        defer CallVisitor(N_{{ $.TypName | UnPrefix }}_AFTER, n, key, ctx)
+        CallVisitor({{ if $.Shared }}NodeBeforeEvent(n.Type()){{ else }}N_{{ $.TypName | UnPrefix }}_BEFORE{{ end }}, n, key, ctx)
+        defer CallVisitor({{ if $.Shared }}NodeAfterEvent(n.Type()){{ else }}N_{{ $.TypName | UnPrefix }}_AFTER{{ end }}, n, key, ctx)
       {{- end }}
 
       {{ if ne $value.Name "PUSH_SCOPE" }}
@@ -64,18 +65,18 @@ func Visit{{ .Name }}(node parser.Node, key string, ctx *VisitorCtx) {
       {{- end }}
     {{- end }}
   {{- else}}
-    CallListener(N_{{ $.TypName | UnPrefix }}_BEFORE, node, key, ctx)
-    CallListener(N_{{ $.TypName | UnPrefix }}_AFTER, node, key, ctx)
+    CallListener({{ if $.Shared }}NodeBeforeEvent(node.Type()){{ else }}N_{{ $.TypName | UnPrefix }}_BEFORE{{ end }}, node, key, ctx)
+    CallListener({{ if $.Shared }}NodeAfterEvent(node.Type()){{ else }}N_{{ $.TypName | UnPrefix }}_AFTER{{ end }}, node, key, ctx)
   {{- end }}
 }
 
 {{ if ge (len .Methods) 1 }}
 func Visit{{ .Name }}Before(node parser.Node, key string, ctx *VisitorCtx) {
-  CallListener(N_{{ $.TypName | UnPrefix }}_BEFORE, node, key, ctx)
+  CallListener({{ if $.Shared }}NodeBeforeEvent(node.Type()){{ else }}N_{{ $.TypName | UnPrefix }}_BEFORE{{ end }}, node, key, ctx)
 }
 
 func Visit{{ .Name }}After(node parser.Node, key string, ctx *VisitorCtx) {
-  CallListener(N_{{ $.TypName | UnPrefix }}_AFTER, node, key, ctx)
+  CallListener({{ if $.Shared }}NodeAfterEvent(node.Type()){{ else }}N_{{ $.TypName | UnPrefix }}_AFTER{{ end }}, node, key, ctx)
 }
 {{- end}}
   `)
@@ -317,7 +318,7 @@ func main() {
 		if ok {
 			return s
 		}
-		structColl[name] = &StructInfo{name, "", false, []*MethodInfo{}}
+		structColl[name] = &StructInfo{name, "", false, false, []*MethodInfo{}}
 		return structColl[name]
 	}
 
@@ -332,6 +333,7 @@ func main() {
 			nodeTypStruct[nodeTyp] = structName
 
 			s := getStruct(structName)
+			s.Shared = s.TypName != ""
 			s.TypName = nodeTyp
 		} else if name, _, ok := macro.IsStructDec(ctx.Node); ok {
 			s := getStruct(name)
-- 
2.43.0


From fb06315595f6c383cf4304818d149d843ead253b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:10 +0000
Subject: [PATCH 36/44] fix: names of function expressions not bound in the
 function, expressions of params resolved to bindings of the body, var in
 loops hiding the param of the surrounding catch

---
 ecma/parser/parser.go | 39 ++++++++++++++++++++++++++++++---------
 ecma/parser/symtab.go | 27 ++++++++++++++++++++++++---
 ecma/walk/ctx.go      | 20 ++++++++++++++++++++
 3 files changed, 74 insertions(+), 12 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index de59cf4..d365fb3 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1916,6 +1916,9 @@ func (p *Parser) tryStmt() (Node, error) {
 		rng := p.rng()
 		p.lexer.Next()
 
+		scope := p.symtab.EnterScope(false, false, true)
+		scope.AddKind(SPK_CATCH)
+
 		ahead := p.lexer.Peek()
 		var param Node
 		if ahead.value == T_PAREN_L {
@@ -1939,9 +1942,6 @@ func (p *Parser) tryStmt() (Node, error) {
 			return nil, p.errorTok(ahead)
 		}
 
-		scope := p.symtab.EnterScope(false, false, true)
-		scope.AddKind(SPK_CATCH)
-
 		if param != nil {
 			if param.Type() == N_NAME {
 				scope.simpleCatch = param.(*Ident).val
@@ -1962,6 +1962,9 @@ func (p *Parser) tryStmt() (Node, error) {
 					return nil, err
 				}
 			}
+			if param.Type() != N_NAME {
+				scope.splitHead()
+			}
 		}
 
 		body, err := p.blockStmt(false, SPK_NONE)
@@ -2734,12 +2737,12 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			return nil, err
 		}
 
-		// name of the function expression will not add a ref record
+		fnRef = NewRef()
+		fnRef.Id = id.(*Ident)
+		fnRef.BindKind = BK_VAR
+		fnRef.Typ = RDT_FN
+		// name of the function expression is only visible in the function itself
 		if !expr {
-			fnRef = NewRef()
-			fnRef.Id = id.(*Ident)
-			fnRef.BindKind = BK_VAR
-			fnRef.Typ = RDT_FN
 			if ps.IsKind(SPK_STRICT) {
 				fnRef.BindKind = BK_LET
 			}
@@ -2797,6 +2800,9 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		// duplicate-checking for params is enable in strict and delegated to below `checkParams`
 		p.addLocalBinding(nil, ref, false, ref.Id.val)
 	}
+	if !firstComplicated.Empty() {
+		scope.splitHead()
+	}
 
 	var body Node
 	tok = p.lexer.Peek()
@@ -2832,9 +2838,18 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		return nil, err
 	}
 
+	if expr && fnRef != nil {
+		for _, s := range []*Scope{scope, scope.Head} {
+			if s != nil && s.Local(fnRef.Id.val) == nil {
+				fnRef.Scope = scope
+				s.Refs[fnRef.Id.val] = fnRef
+			}
+		}
+	}
+
 	if p.ts {
 		if body == nil {
-			if fnRef != nil {
+			if fnRef != nil && !expr {
 				if !scope.IsKind(SPK_TS_DECLARE) {
 					// suppress the dup-checking of the binding name on the func overloads
 					ps.DelLocal(fnRef)
@@ -6191,6 +6206,9 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 		// duplicate-checking is enable in strict mode by below `checkParams`
 		p.addLocalBinding(nil, ref, false, ref.Id.val)
 	}
+	if !firstComplicated.Empty() {
+		scope.splitHead()
+	}
 
 	if ti == nil {
 		typAnnot, err := p.tsTypAnnot()
@@ -6644,6 +6662,9 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 		// checking is delegated to below `checkParams`
 		p.addLocalBinding(nil, ref, false, ref.Id.val)
 	}
+	if !firstComplicated.Empty() {
+		scope.splitHead()
+	}
 
 	// the return type of method
 	typAnnot, err := p.tsTypAnnot()
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 2cea03a..e63d4c2 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -147,6 +147,10 @@ type Scope struct {
 	Up   *Scope
 	Down []*Scope
 
+	// the scope of the params if they contain expressions, those expressions cannot
+	// see the bindings declared in the body. it's nil if the params are just names
+	Head *Scope
+
 	// label should be unique in its label chain
 	uniqueLabels map[string]Node
 	// labels can be redefined in their defined scope
@@ -201,11 +205,26 @@ func (s *Scope) EraseKind(kind ScopeKind) *Scope {
 func (s *Scope) moveDownTo(to *Scope) {
 	for _, scope := range s.Down {
 		scope.Up = to
+		if scope.Head != nil {
+			scope.Head.Up = to
+		}
 		to.Down = append(to.Down, scope)
 	}
 	s.Down = nil
 }
 
+// keeps the bindings and the child scopes which exist before the body is entered
+func (s *Scope) splitHead() {
+	s.Head = NewScope()
+	s.Head.Id = s.Id
+	s.Head.Kind = s.Kind
+	s.Head.Up = s.Up
+	for name, ref := range s.Refs {
+		s.Head.Refs[name] = ref
+	}
+	s.moveDownTo(s.Head)
+}
+
 func (s *Scope) Local(name string) *Ref {
 	return s.Refs[name]
 }
@@ -343,11 +362,13 @@ func (s *Scope) AddLocal(ref *Ref, name string, checkDup bool) bool {
 	if ref.BindKind == BK_VAR && !ref.isFn() {
 		fn := s.UpperFn()
 		fn.Refs[name] = ref
+		shadowed := false
 		for scope := s; scope != fn; scope = scope.Up {
 			scope.varNames[name] = true
-			if scope == s && scope.Local(name) == nil {
-				scope.Refs[name] = ref
-			}
+			shadowed = shadowed || scope.Local(name) != nil && scope.Local(name).BindKind != BK_VAR
+		}
+		if !shadowed {
+			s.Refs[name] = ref
 		}
 		ref.Scope = s
 		return true
diff --git a/ecma/walk/ctx.go b/ecma/walk/ctx.go
index b17314a..50412f8 100644
--- a/ecma/walk/ctx.go
+++ b/ecma/walk/ctx.go
@@ -53,6 +53,9 @@ func (c *WalkCtx) collectScopes(scope *parser.Scope) {
 	if scope.Node != nil {
 		c.scopeOf[scope.Node] = scope
 	}
+	if scope.Head != nil {
+		c.collectScopes(scope.Head)
+	}
 	for _, s := range scope.Down {
 		c.collectScopes(s)
 	}
@@ -149,6 +152,18 @@ func (vc *VisitorCtx) ParentIsJmp(key string) bool {
 	return false
 }
 
+func bodyOf(node parser.Node) parser.Node {
+	switch n := node.(type) {
+	case *parser.FnDec:
+		return n.Body()
+	case *parser.ArrowFn:
+		return n.Body()
+	case *parser.Catch:
+		return n.Body()
+	}
+	return nil
+}
+
 func VisitNode(n parser.Node, key string, ctx *VisitorCtx) {
 	if n == nil {
 		return
@@ -159,6 +174,11 @@ func VisitNode(n parser.Node, key string, ctx *VisitorCtx) {
 		scopes := wc.scopeStk
 		wc.scopeStk = append([]*parser.Scope{}, scopes[:len(scopes)-1]...)
 		defer func() { wc.scopeStk = scopes }()
+	} else if scope := wc.Scope(); scope != nil && scope.Head != nil && scope.Node == ctx.Node && bodyOf(ctx.Node) != n {
+		// the params are outside of the scope of the body
+		scopes := wc.scopeStk
+		wc.scopeStk = append(append([]*parser.Scope{}, scopes[:len(scopes)-1]...), scope.Head)
+		defer func() { wc.scopeStk = scopes }()
 	}
 	wc.PushVisitorCtx(n, key)
 	CallVisitor(n.Type(), n, key, wc.VisitorCtx())
-- 
2.43.0


From a22c93f8d4a3e926e6d58775c6b009fa00b5b8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:12 +0000
Subject: [PATCH 37/44] fix: arms of untaken else-if chains selected, right
 side of ?? always selected, branch tests skipped, functions of the dependency
 graph mixed up after nested ones, keys and labels captured, crash on
 variables without initializer

---
 ecma/astutil/astutil.go | 151 +++++++++++++++++++++++++++++++---------
 1 file changed, 119 insertions(+), 32 deletions(-)

diff --git a/ecma/astutil/astutil.go b/ecma/astutil/astutil.go
index 8784bdb..2232fb0 100644
--- a/ecma/astutil/astutil.go
+++ b/ecma/astutil/astutil.go
@@ -130,17 +130,49 @@ type SwitchBranch struct {
 	negative bool
 	test     parser.Node
 	body     parser.Node
+
+	// the `else` branch which contains this one
+	outer *SwitchBranch
+	// whether the branch is taken if the test is nullish
+	nullish bool
+}
+
+// reports whether the branch is taken under the `vars`, it's not if the test cannot be evaluated
+func (b *SwitchBranch) isTaken(vars map[string]interface{}, p *parser.Parser) bool {
+	if b.outer != nil && !b.outer.isTaken(vars, p) {
+		return false
+	}
+	if b.test == nil {
+		return true
+	}
+	v, err := exec.NewExprEvaluator(b.test, p).Exec(vars).GetResult()
+	if err != nil {
+		return false
+	}
+	if b.nullish {
+		return v == nil
+	}
+	return exec.ToBool(v) != b.negative
 }
 
 func IfStmtToSwitchBranches(node *parser.IfStmt) []*SwitchBranch {
 	bs := NodeToSwitchBranches(node.Test())
-	bs = append(bs, &SwitchBranch{false, node.Test(), node.Cons()})
+	bs = append(bs, &SwitchBranch{test: node.Test(), body: node.Cons()})
 	if node.Alt() != nil {
+		nb := &SwitchBranch{negative: true, test: node.Test(), body: node.Alt()}
 		switch node.Alt().Type() {
 		case parser.N_STMT_IF:
-			bs = append(bs, IfStmtToSwitchBranches(node.Alt().(*parser.IfStmt))...)
+			for _, b := range IfStmtToSwitchBranches(node.Alt().(*parser.IfStmt)) {
+				root := b
+				for root.outer != nil {
+					root = root.outer
+				}
+				if root != nb {
+					root.outer = nb
+				}
+				bs = append(bs, b)
+			}
 		default:
-			nb := &SwitchBranch{true, node.Test(), node.Alt()}
 			bs = append(bs, nb)
 		}
 	}
@@ -148,22 +180,24 @@ func IfStmtToSwitchBranches(node *parser.IfStmt) []*SwitchBranch {
 }
 
 func BinExprToSwitchBranch(node *parser.BinExpr) []*SwitchBranch {
-	bs := []*SwitchBranch{{false, nil, node.Lhs()}}
+	bs := []*SwitchBranch{{body: node.Lhs()}}
 	switch node.Op() {
 	case parser.T_AND:
-		bs = append(bs, &SwitchBranch{false, node.Lhs(), node.Rhs()})
+		bs = append(bs, &SwitchBranch{test: node.Lhs(), body: node.Rhs()})
 	case parser.T_OR:
-		bs = append(bs, &SwitchBranch{true, node.Lhs(), node.Rhs()})
+		bs = append(bs, &SwitchBranch{negative: true, test: node.Lhs(), body: node.Rhs()})
+	case parser.T_NULLISH:
+		bs = append(bs, &SwitchBranch{nullish: true, test: node.Lhs(), body: node.Rhs()})
 	default:
-		bs = append(bs, &SwitchBranch{true, nil, node.Rhs()})
+		bs = append(bs, &SwitchBranch{body: node.Rhs()})
 	}
 	return bs
 }
 
 func CondExprToSwitchBranches(node *parser.CondExpr) []*SwitchBranch {
 	bs := []*SwitchBranch{}
-	bs = append(bs, &SwitchBranch{false, node.Test(), node.Cons()})
-	bs = append(bs, &SwitchBranch{true, node.Test(), node.Alt()})
+	bs = append(bs, &SwitchBranch{test: node.Test(), body: node.Cons()})
+	bs = append(bs, &SwitchBranch{negative: true, test: node.Test(), body: node.Alt()})
 	return bs
 }
 
@@ -181,22 +215,16 @@ func NodeToSwitchBranches(node parser.Node) []*SwitchBranch {
 }
 
 func SelectTrueBranches(node parser.Node, vars map[string]interface{}, p *parser.Parser) []parser.Node {
-	bs := NodeToSwitchBranches(node)
+	return takenBodies(NodeToSwitchBranches(node), vars, p)
+}
+
+func takenBodies(bs []*SwitchBranch, vars map[string]interface{}, p *parser.Parser) []parser.Node {
 	tbs := []parser.Node{}
 	for _, b := range bs {
-		if b.test == nil {
-			tbs = append(tbs, b.body)
-		}
-		v, err := exec.NewExprEvaluator(b.test, p).Exec(vars).GetResult()
-		if err != nil {
-			continue
-		}
-		bv := exec.ToBool(v)
-		if (!b.negative && bv || b.negative && !bv) && b.body != nil {
+		if b.body != nil && b.isTaken(vars, p) {
 			tbs = append(tbs, b.body)
 		}
 	}
-
 	return tbs
 }
 
@@ -206,10 +234,19 @@ func CollectNodesInTrueBranches(node parser.Node, typ []parser.NodeType, vars ma
 	wc := walk.NewWalkCtx(node, nil)
 
 	walkTrueBranches := func(node parser.Node, key string, ctx *walk.VisitorCtx) {
-		subs := SelectTrueBranches(node, vars, p)
-		for _, sub := range subs {
+		var bs []*SwitchBranch
+		switch n := node.(type) {
+		case *parser.IfStmt:
+			bs = []*SwitchBranch{{body: n.Test()}, {test: n.Test(), body: n.Cons()}, {negative: true, test: n.Test(), body: n.Alt()}}
+		case *parser.CondExpr:
+			bs = append([]*SwitchBranch{{body: n.Test()}}, CondExprToSwitchBranches(n)...)
+		case *parser.BinExpr:
+			bs = BinExprToSwitchBranch(n)
+		}
+		for _, sub := range takenBodies(bs, vars, p) {
 			walk.VisitNode(sub, key, ctx)
 		}
+		walk.CallListener(walk.NodeAfterEvent(node.Type()), node, key, ctx)
 	}
 
 	walk.SetVisitor(&wc.Visitors, parser.N_STMT_IF, walkTrueBranches)
@@ -328,6 +365,9 @@ func IsIdentBoundInImportDec(ident *parser.Ident, scope *parser.Scope) *parser.I
 }
 
 func IsFn(node parser.Node) bool {
+	if node == nil {
+		return false
+	}
 	typ := node.Type()
 	return typ == parser.N_STMT_FN || typ == parser.N_EXPR_FN || typ == parser.N_EXPR_ARROW
 }
@@ -347,6 +387,27 @@ type FnDepNode struct {
 	Deps []*FnDepNode
 }
 
+// reports whether the name refers to a binding, the ones which are keys, labels or names being declared do not
+func isRefName(node parser.Node, key string, ctx *walk.VisitorCtx) bool {
+	switch pn := ctx.ParentNode().(type) {
+	case *parser.MemberExpr:
+		return key != "Prop" || pn.Compute()
+	case *parser.Prop:
+		return key != "Key" || pn.Computed() || pn.Shorthand()
+	case *parser.Method:
+		return key != "Key" || pn.Computed()
+	case *parser.Field:
+		return key != "Key" || pn.Computed()
+	case *parser.FnDec, *parser.ClassDec:
+		return key != "Id"
+	case *parser.LabelStmt, *parser.BrkStmt, *parser.ContStmt:
+		return key != "Label"
+	case *parser.MetaProp:
+		return false
+	}
+	return true
+}
+
 func BuildFnDepGraph(node parser.Node, symtab *parser.SymTab) *FnDepGraph {
 	ctx := walk.NewWalkCtx(node, symtab)
 
@@ -364,6 +425,33 @@ func BuildFnDepGraph(node parser.Node, symtab *parser.SymTab) *FnDepGraph {
 	}
 
 	fnNodeStk := []*FnDepNode{}
+	fnScope := map[parser.Node]*parser.Scope{}
+	var collectScopes func(scope *parser.Scope)
+	collectScopes = func(scope *parser.Scope) {
+		fnScope[scope.Node] = scope
+		if scope.Head != nil {
+			collectScopes(scope.Head)
+		}
+		for _, s := range scope.Down {
+			collectScopes(s)
+		}
+	}
+	collectScopes(symtab.Root)
+
+	// reports whether the name is bound in the function
+	isLocal := func(name string, scope *parser.Scope, fn parser.Node) bool {
+		outermost := fnScope[fn]
+		for scope != nil {
+			if scope.Local(name) != nil {
+				return true
+			}
+			if outermost == nil || scope == outermost || scope == outermost.Head {
+				break
+			}
+			scope = scope.Up
+		}
+		return false
+	}
 
 	var fnNode *FnDepNode
 	fnBefore := func(node parser.Node, key string, ctx *walk.VisitorCtx) {
@@ -371,19 +459,17 @@ func BuildFnDepGraph(node parser.Node, symtab *parser.SymTab) *FnDepGraph {
 		newFn.Dec = node
 		fnNodeStk = append(fnNodeStk, newFn)
 
-		if fnNode != nil {
+		if fnNode != nil && !util.Includes(fnNode.Deps, newFn) {
 			fnNode.Deps = append(fnNode.Deps, newFn)
 		}
 		fnNode = newFn
 	}
 
 	fnAfter := func(node parser.Node, key string, ctx *walk.VisitorCtx) {
-		cnt := len(fnNodeStk)
-		if cnt > 0 {
+		fnNodeStk = fnNodeStk[:len(fnNodeStk)-1]
+		fnNode = nil
+		if cnt := len(fnNodeStk); cnt > 0 {
 			fnNode = fnNodeStk[cnt-1]
-			fnNodeStk = fnNodeStk[:cnt-1]
-		} else {
-			fnNode = nil
 		}
 	}
 
@@ -420,17 +506,18 @@ func BuildFnDepGraph(node parser.Node, symtab *parser.SymTab) *FnDepGraph {
 				return
 			}
 
-			pn := ctx.ParentNode()
-			if pn != nil && pn.Type() == parser.N_EXPR_MEMBER && key == "Prop" && pn.(*parser.MemberExpr).Compute() == false {
+			if !isRefName(node, key, ctx) {
 				return
 			}
 
 			name := node.(*parser.Ident).Val()
 			scope := ctx.Scope()
-			if scope.Local(name) == nil {
+			if !isLocal(name, scope, fnNode.Dec) {
 				ref := scope.BindingOf(name)
 				if ref != nil {
-					fnNode.Captures = append(fnNode.Captures, ref)
+					if !util.Includes(fnNode.Captures, ref) {
+						fnNode.Captures = append(fnNode.Captures, ref)
+					}
 
 					dec := ref.Dec
 					if dec == nil {
-- 
2.43.0


From dcfbfd503fc1176b32c6e497996332064885b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:19 +0000
Subject: [PATCH 38/44] fix: options of the caller changed by the parser, state
 of the previous parse kept when a parser is set up again

---
 ecma/parser/parser.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index d365fb3..9e59ddb 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -132,14 +132,16 @@ func NewParser(src *span.Source, opts *ParserOpts) *Parser {
 }
 
 func (p *Parser) Setup(src *span.Source, opts *ParserOpts) {
-	if opts.Feature&FEAT_ASYNC_AWAIT == 0 {
-		opts.Feature = opts.Feature.Off(FEAT_GLOBAL_ASYNC)
+	// the options belong to the caller
+	feat := opts.Feature
+	if feat&FEAT_ASYNC_AWAIT == 0 {
+		feat = feat.Off(FEAT_GLOBAL_ASYNC)
 	}
-	if opts.Feature&FEAT_MODULE != 0 {
-		opts.Feature = opts.Feature.On(FEAT_IMPORT_DEC).On(FEAT_EXPORT_DEC)
+	if feat&FEAT_MODULE != 0 {
+		feat = feat.On(FEAT_IMPORT_DEC).On(FEAT_EXPORT_DEC)
 	}
 
-	p.feat = opts.Feature
+	p.feat = feat
 	p.imp = map[string]*Ident{}
 	p.checkName = true
 	p.danglingPvtRefs = make([]*Ref, 0)
@@ -152,12 +154,19 @@ func (p *Parser) Setup(src *span.Source, opts *ParserOpts) {
 	p.stmtCtx = SC_NONE
 	p.retsStk = [][]Node{}
 	p.tryStk = []Node{}
+	p.lastTsFnSig = nil
+	p.hangingDecorators = nil
+	p.prog = nil
+	p.errTypArgMissingGT = ErrTypArgMissingGT{}
+	p.awaitPos = 0
+	p.yieldPos = 0
+	p.awaitIdentPos = 0
 	p.prevCmts = map[Node][]span.Range{}
 	p.postCmts = map[Node][]span.Range{}
 
 	p.lexer = NewLexer(src)
 	p.lexer.ver = opts.Version
-	p.lexer.feat = opts.Feature
+	p.lexer.feat = feat
 	if p.feat&FEAT_TS != 0 || p.feat&FEAT_DTS != 0 {
 		p.lexer.AddMode(LM_TS)
 	}
-- 
2.43.0


From bf01dda6b877ad6cadf1778661ee34ae73cf750f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:38 +0000
Subject: [PATCH 39/44] fix: the walker reports the scope of the params as the
 one of their function

---
 ecma/parser/parser.go | 8 ++++----
 ecma/parser/symtab.go | 8 ++++++++
 ecma/walk/ctx.go      | 4 +++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 9e59ddb..a6cf7c3 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1984,7 +1984,7 @@ func (p *Parser) tryStmt() (Node, error) {
 		}
 
 		catch = &Catch{N_CATCH, p.finRng(rng), param, body}
-		s.Node = catch
+		s.setNode(catch)
 	}
 
 	var fin Node
@@ -2893,7 +2893,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	if fnRef != nil {
 		fnRef.Dec = fnDec
 	}
-	s.Node = fnDec
+	s.setNode(fnDec)
 
 	if !expr && p.ts {
 		if body == nil {
@@ -6266,7 +6266,7 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 
 	s := p.symtab.LeaveScope()
 	n := &ArrowFn{N_EXPR_ARROW, p.finRng(rng), arrowLoc, async, params, body, body.Type() != N_STMT_BLOCK, p.decRetsStk(), span.Range{}, ti}
-	s.Node = n
+	s.setNode(n)
 	return n, nil
 }
 
@@ -6738,7 +6738,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 
 	rets := p.decRetsStk()
 	value := &FnDec{N_EXPR_FN, p.finRng(fnLoc), nil, gen, async, params, body, rets, span.Range{}, ti}
-	s.Node = value
+	s.setNode(value)
 	if body == nil {
 		if p.ts {
 			// the method body can be emitted in typescript to represent the
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index e63d4c2..c43c440 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -225,6 +225,14 @@ func (s *Scope) splitHead() {
 	s.moveDownTo(s.Head)
 }
 
+// the node belongs to both the params and the body
+func (s *Scope) setNode(node Node) {
+	s.Node = node
+	if s.Head != nil {
+		s.Head.Node = node
+	}
+}
+
 func (s *Scope) Local(name string) *Ref {
 	return s.Refs[name]
 }
diff --git a/ecma/walk/ctx.go b/ecma/walk/ctx.go
index 50412f8..fb28dfb 100644
--- a/ecma/walk/ctx.go
+++ b/ecma/walk/ctx.go
@@ -54,7 +54,9 @@ func (c *WalkCtx) collectScopes(scope *parser.Scope) {
 		c.scopeOf[scope.Node] = scope
 	}
 	if scope.Head != nil {
-		c.collectScopes(scope.Head)
+		for _, s := range scope.Head.Down {
+			c.collectScopes(s)
+		}
 	}
 	for _, s := range scope.Down {
 		c.collectScopes(s)
-- 
2.43.0


From 208921900467dd59348389ef6268c220cc18f40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:34 +0000
Subject: [PATCH 40/44] fix: the control flow graph is deterministic and keeps
 the paths of jumps, loops, switches and try stmts

---
 ecma/analysis/ctrlflow.go | 149 +++++++++++++++++++++++++---
 ecma/analysis/graph.go    | 202 ++++++++++++++++++++++++++++++--------
 2 files changed, 294 insertions(+), 57 deletions(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index df7bb42..f713022 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -1,6 +1,8 @@
 package analysis
 
 import (
+	"strings"
+
 	"github.com/hsiaosiyuan0/mole/ecma/parser"
 	"github.com/hsiaosiyuan0/mole/ecma/walk"
 	"github.com/hsiaosiyuan0/mole/span"
@@ -158,6 +160,37 @@ func isLoop(t parser.NodeType) bool {
 	return t == parser.N_STMT_FOR || t == parser.N_STMT_WHILE || t == parser.N_STMT_DO_WHILE || t == parser.N_STMT_FOR_IN_OF
 }
 
+// returns the stmt which is labelled by the label and the labels nested in it
+func labelledStmt(label parser.Node) parser.Node {
+	node := label
+	for node.Type() == parser.N_STMT_LABEL {
+		node = node.(*parser.LabelStmt).Body()
+	}
+	return node
+}
+
+// whether the node is the literal which is always true
+func isTrueLit(node parser.Node, s *span.Source) bool {
+	if node == nil {
+		return false
+	}
+	switch node.Type() {
+	case parser.N_LIT_BOOL:
+		return node.(*parser.BoolLit).Val()
+	case parser.N_LIT_STR:
+		return node.(*parser.StrLit).Val() != ""
+	case parser.N_LIT_NUM:
+		if s == nil {
+			return false
+		}
+		text := parser.NodeText(node, s)
+		return !strings.HasSuffix(text, "n") && parser.NodeToFloat(node, s) != 0
+	case parser.N_LIT_REGEXP, parser.N_LIT_ARR, parser.N_LIT_OBJ:
+		return true
+	}
+	return false
+}
+
 func isAtom(t parser.NodeType) bool {
 	_, ok := walk.AtomNodeTypes[t]
 	return ok
@@ -290,15 +323,19 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		logic := true
 		if op == parser.T_AND {
 			lhs.newJmpOut(ET_JMP_F)
-		} else if op == parser.T_OR || op == parser.T_NULLISH {
+		} else if op == parser.T_OR {
+			lhs.newJmpOut(ET_JMP_T)
+		} else if op == parser.T_NULLISH {
+			// the value which is not nil can be either true or false
 			lhs.newJmpOut(ET_JMP_T)
+			lhs.newJmpOut(ET_JMP_F)
 		} else {
 			logic = false
 		}
 
 		link(ac, lhs, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, rhs, LF_NONE)
 
-		if op == parser.T_OR || op == parser.T_NULLISH {
+		if op == parser.T_OR {
 			link(ac, lhs, EK_JMP, ET_JMP_F, EK_SEQ, ET_NONE, rhs, LF_NONE)
 		}
 
@@ -523,7 +560,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, obj, LF_NONE)
 
-		link(ac, obj, EK_JMP, ET_JMP_T|ET_JMP_F, EK_JMP, ET_NONE, prop, LF_NONE)
+		// the hanging jumps of `obj` leave the whole chain so they are not linked to `prop`
 		link(ac, obj, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, prop, LF_NONE)
 
 		link(ac, prop, EK_JMP, ET_JMP_T|ET_JMP_F, EK_JMP, ET_NONE, exit, LF_NONE)
@@ -901,6 +938,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		if init != nil {
 			link(ac, enter, EK_SEQ, ET_NONE, EK_NONE, ET_NONE, init, LF_NONE)
+			link(ac, init, EK_JMP, ET_NONE, EK_JMP, ET_NONE, test, LF_NONE)
 			link(ac, init, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, test, LF_NONE)
 		}
 
@@ -909,11 +947,13 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 				link(ac, enter, EK_SEQ, ET_NONE, EK_NONE, ET_NONE, test, LF_NONE)
 			}
 			link(ac, test, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
+			link(ac, test, EK_JMP, ET_JMP_T, EK_SEQ, ET_NONE, body, LF_NONE)
 		} else {
 			body.newLoopIn()
 			if init == nil {
 				link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
 			} else {
+				link(ac, init, EK_JMP, ET_NONE, EK_JMP, ET_NONE, body, LF_NONE)
 				link(ac, init, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
 			}
 		}
@@ -924,8 +964,10 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			}
 			link(ac, body, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, update, LF_NONE)
 			if test != nil {
+				link(ac, update, EK_JMP, ET_JMP_T|ET_JMP_F, EK_JMP, ET_NONE, test, LF_NONE)
 				link(ac, update, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, test, LF_NONE)
 			} else {
+				link(ac, update, EK_JMP, ET_JMP_T|ET_JMP_F, EK_JMP, ET_NONE, body, LF_NONE)
 				link(ac, update, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
 			}
 			update.mrkSeqOutAsLoop()
@@ -952,16 +994,17 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		vn := ac.graph.newGroupBlk()
 		vn.Inlets = enter.Inlets
+		vn.addOutlets(enter.xJmpOutEdges())
 		if test != nil {
 			vn.addOutlets(test.xJmpOutEdges())
 		}
 		vn.addOutlets(body.xOutEdges())
 
 		exit := ac.newExit(node, "")
-		link(ac, vn, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
+		link(ac, vn, EK_JMP, ET_JMP_T|ET_JMP_F, EK_JMP, ET_NONE, exit, LF_NONE)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
-		if tn := n.Test(); tn != nil && tn.Type().IsLit() {
+		if tn := n.Test(); isTrueLit(tn, ac.root.s) {
 			j := test.FindOutEdge(EK_JMP, ET_JMP_F, false)
 			j.Kind = EK_SEQ
 			j.Tag = ET_CUT
@@ -975,7 +1018,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		test := ac.popExpr()
 		enter := ac.popStmt()
 
-		if !n.Test().Type().IsLit() {
+		if !isTrueLit(n.Test(), ac.root.s) {
 			test.newJmpOut(ET_JMP_F)
 		}
 
@@ -989,7 +1032,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		link(ac, body, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, test, LF_NONE)
 		body.mrkSeqOutAsLoop()
 
-		if n.Test().Type().IsLit() {
+		if isTrueLit(n.Test(), ac.root.s) {
 			body.addCutOutEdge()
 		}
 
@@ -997,13 +1040,14 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		vn := ac.graph.newGroupBlk()
 		vn.Inlets = enter.Inlets
+		vn.addOutlets(enter.xJmpOutEdges())
 		if test != nil {
 			vn.addOutlets(test.xJmpOutEdges())
 		}
 		vn.addOutlets(body.xOutEdges())
 
 		exit := ac.newExit(node, "")
-		link(ac, vn, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
+		link(ac, vn, EK_JMP, ET_JMP_T|ET_JMP_F, EK_JMP, ET_NONE, exit, LF_NONE)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 		ac.pushStmt(grpBlock(ac, vn, exit))
 
@@ -1031,6 +1075,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		vn := ac.graph.newGroupBlk()
 		vn.Inlets = enter.Inlets
+		vn.addOutlets(enter.xJmpOutEdges())
 		if test != nil {
 			vn.addOutlets(test.xJmpOutEdges())
 		}
@@ -1040,7 +1085,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		link(ac, test, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
-		if n.Test().Type().IsLit() {
+		if isTrueLit(n.Test(), ac.root.s) {
 			j := test.FindOutEdge(EK_JMP, ET_JMP_F, false)
 			j.Kind = EK_SEQ
 			j.Tag = ET_CUT
@@ -1054,6 +1099,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		rhs := ac.popExpr()
 		lhs := ac.popExpr()
 
+		rhs = joinJmpOut(ac, rhs)
 		lhs.newLoopIn()
 		link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, lhs, LF_NONE)
 		link(ac, lhs, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, rhs, LF_NONE)
@@ -1069,7 +1115,9 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		exit := ac.newExit(node, "")
 		link(ac, rhs, EK_JMP, ET_JMP_F, EK_SEQ, ET_NONE, exit, LF_NONE)
 
-		ac.pushStmt(grpBlock(ac, enter, exit))
+		vn := grpBlock(ac, enter, exit)
+		vn.addOutlets(body.xJmpOutEdges())
+		ac.pushStmt(vn)
 
 	case parser.N_STATIC_BLOCK:
 		prev := ac.popStmt()
@@ -1148,7 +1196,9 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		link(ac, id, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
 		link(ac, body, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
-		ac.pushStmt(grpBlock(ac, enter, exit))
+		vn := grpBlock(ac, enter, exit)
+		vn.addOutlets(body.xJmpOutEdges())
+		ac.pushStmt(vn)
 
 	case parser.N_STMT_TRY:
 		n := node.(*parser.TryStmt)
@@ -1170,7 +1220,12 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			if edge := blk.FindOutEdge(EK_JMP, ET_JMP_E, false); edge != nil || blk.allInfoNode() || blk.throwLit() {
 				return
 			}
-			edge := blk.newJmpOut(ET_JMP_E)
+			// the block may have no seq-out, such as the tail of loop
+			edge := ac.graph.newEdge(EK_JMP, ET_JMP_E, blk, nil)
+			if blk.IsInCut() {
+				edge.Tag |= ET_CUT
+			}
+			blk.Outlets[edge] = edge
 			eb[edge] = edge
 		})
 		try.addOutlets(eb)
@@ -1333,6 +1388,19 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			link(ac, test, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, flag)
 		}
 
+		if tail != nil {
+			// the jumps of the last case which leave the switch
+			brks := map[*Edge]*Edge{}
+			for _, brk := range ac.graph.hangingBrk[ctx.ScopeId()] {
+				util.Merge(brks, brk.Outlets)
+			}
+			for _, edge := range tail.xJmpOutEdges() {
+				if _, ok := brks[edge]; !ok {
+					xOutEdges[edge] = edge
+				}
+			}
+		}
+
 		vn := grpBlock(ac, enter, exit)
 		vn.addOutlets(xOutEdges)
 		ac.pushStmt(vn)
@@ -1343,7 +1411,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		var test *Block
 		if n.Test() != nil {
-			test = ac.popExpr()
+			test = joinJmpOut(ac, ac.popExpr())
 			test.newJmpOut(ET_JMP_F)
 			link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, test, LF_NONE)
 		} else {
@@ -1353,6 +1421,9 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			test = enter
 		}
 
+		// leads from the test to the body
+		testEdge := test.seqOutEdge()
+
 		var body *Block
 		if len(n.Cons()) > 0 {
 			body = ac.popStmt()
@@ -1372,6 +1443,8 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		}
 
 		vn := grpBlock(ac, enter, exit)
+		vn.addOutlets(test.xJmpOutEdges())
+		ac.graph.switchCases[vn] = &switchCase{testEdge, n.Test() == nil}
 		if body != nil {
 			vn.addOutlets(body.xOutEdges())
 		}
@@ -1385,8 +1458,20 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		link(ac, enter, EK_SEQ, ET_NONE, EK_NONE, ET_NONE, lb, LF_NONE)
 		link(ac, lb, EK_SEQ, ET_NONE, EK_NONE, ET_NONE, body, LF_NONE)
 		exit := ac.newExit(node, "")
+		brks := ac.graph.hangingLabelBrk[node]
+		if len(brks) > 0 {
+			exit.newJmpIn(ET_JMP_U)
+		}
 		link(ac, body, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
-		ac.pushStmt(grpBlock(ac, enter, exit))
+
+		// resolve the breaks which leave the labelled stmt if it's not loop
+		for _, brk := range brks {
+			link(ac, brk, EK_JMP, ET_JMP_U, EK_JMP, ET_JMP_U, exit, LF_OVERWRITE)
+		}
+
+		vn := grpBlock(ac, enter, exit)
+		vn.addOutlets(body.xJmpOutEdges())
+		ac.pushStmt(vn)
 
 	case parser.N_STMT_CONT:
 		prev := ac.popStmt()
@@ -1426,8 +1511,12 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			link(ac, name, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 			exit.mrkSeqOutAsCut()
 			exit.newJmpOut(ET_JMP_U)
-			id := ac.graph.labelLoop[n.Target()]
-			ac.graph.addHangingBrk(id, exit)
+			if isLoop(labelledStmt(n.Target()).Type()) {
+				id := ac.graph.labelLoop[n.Target()]
+				ac.graph.addHangingBrk(id, exit)
+			} else {
+				ac.graph.hangingLabelBrk[n.Target()] = append(ac.graph.hangingLabelBrk[n.Target()], exit)
+			}
 		} else {
 			link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 			exit.mrkSeqOutAsCut()
@@ -1671,10 +1760,31 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		brkList := ac.graph.hangingBrk[id]
 		for _, brk := range brkList {
 			link(ac, brk, EK_JMP, ET_NONE, EK_JMP, ET_NONE, loopExit, LF_OVERWRITE)
+			// the exit which is cut from the loop body is reached by the break
+			if !brk.IsInCut() {
+				for _, edge := range loopExit.Outlets {
+					edge.Tag = edge.Tag.Off(ET_CUT)
+				}
+			}
+		}
+		if isLoop(astTyp) {
+			loopBlk.dropLinked()
 		}
 	}
 }
 
+// joins the hanging jumps of the expr with its seq-out, for the places where all of
+// them go on in the same way
+func joinJmpOut(a *AnalysisCtx, expr *Block) *Block {
+	if len(expr.xJmpOutEdges()) == 0 {
+		return expr
+	}
+	tail := a.graph.newBasicBlk()
+	link(a, expr, EK_JMP, ET_NONE, EK_JMP, ET_NONE, tail, LF_NONE)
+	link(a, expr, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, tail, LF_FORCE_SEP)
+	return grpBlock(a, expr, tail)
+}
+
 func resolveCont(a *AnalysisCtx, loopNode parser.Node, loopTailBlk *Block) {
 	for _, cont := range a.graph.hangingCont[loopNode] {
 		// cont is a placeholder, so we need to find the source blk, then it to loopTailBlk
@@ -1707,4 +1817,11 @@ func AsAnalysisCtx(ctx *walk.VisitorCtx) *AnalysisCtx {
 
 func (a *Analysis) Analyze() {
 	walk.VisitNode(a.WalkCtx.Root, "", a.WalkCtx.VisitorCtx())
+
+	if ac, ok := a.WalkCtx.Extra.(*AnalysisCtx); ok {
+		ac.root.syncInlets()
+		for _, graph := range ac.graphMap {
+			graph.syncInlets()
+		}
+	}
 }
diff --git a/ecma/analysis/graph.go b/ecma/analysis/graph.go
index 0557861..720bdd5 100644
--- a/ecma/analysis/graph.go
+++ b/ecma/analysis/graph.go
@@ -82,6 +82,33 @@ type Edge struct {
 	Tag  EdgeTag
 	Src  *Block
 	Dst  *Block
+
+	// the creation order in its graph
+	id uint
+}
+
+// returns the edges in their creation order, the iteration order of the map is
+// random so it cannot be used to pick edges, otherwise the produced graph would
+// be different from run to run
+func orderedEdges(edges map[*Edge]*Edge) []*Edge {
+	ret := make([]*Edge, 0, len(edges))
+	for _, edge := range edges {
+		ret = append(ret, edge)
+	}
+	if len(ret) > 1 {
+		sort.Slice(ret, func(i, j int) bool { return ret[i].id < ret[j].id })
+	}
+	return ret
+}
+
+func firstEdge(edges map[*Edge]*Edge) *Edge {
+	var ret *Edge
+	for _, edge := range edges {
+		if ret == nil || edge.id < ret.id {
+			ret = edge
+		}
+	}
+	return ret
 }
 
 func (e *Edge) Key() string {
@@ -173,7 +200,7 @@ func (b *Block) addOutlets(edges map[*Edge]*Edge) *Block {
 }
 
 func (b *Block) OutSeqEdge() *Edge {
-	for _, edge := range b.Outlets {
+	for _, edge := range orderedEdges(b.Outlets) {
 		if edge.Kind == EK_SEQ {
 			return edge
 		}
@@ -182,7 +209,7 @@ func (b *Block) OutSeqEdge() *Edge {
 }
 
 func (b *Block) OutJmpEdge(ET EdgeTag) *Edge {
-	for _, edge := range b.Outlets {
+	for _, edge := range orderedEdges(b.Outlets) {
 		if edge.Kind == EK_JMP && edge.Tag&ET != 0 {
 			return edge
 		}
@@ -191,7 +218,7 @@ func (b *Block) OutJmpEdge(ET EdgeTag) *Edge {
 }
 
 func (b *Block) OutEdge(ET EdgeTag) *Edge {
-	for _, edge := range b.Outlets {
+	for _, edge := range orderedEdges(b.Outlets) {
 		if edge.Tag&ET != 0 {
 			return edge
 		}
@@ -200,7 +227,7 @@ func (b *Block) OutEdge(ET EdgeTag) *Edge {
 }
 
 func (b *Block) InSeqEdge() *Edge {
-	for _, edge := range b.Inlets {
+	for _, edge := range orderedEdges(b.Inlets) {
 		if edge.Kind == EK_SEQ {
 			return edge
 		}
@@ -209,7 +236,7 @@ func (b *Block) InSeqEdge() *Edge {
 }
 
 func (b *Block) InJmpEdge(ET EdgeTag) *Edge {
-	for _, edge := range b.Inlets {
+	for _, edge := range orderedEdges(b.Inlets) {
 		if edge.Tag&ET != 0 {
 			return edge
 		}
@@ -219,7 +246,7 @@ func (b *Block) InJmpEdge(ET EdgeTag) *Edge {
 
 func FindEdge(edges map[*Edge]*Edge, k EdgeKind, t EdgeTag) *Edge {
 	var e *Edge
-	for _, edge := range edges {
+	for _, edge := range orderedEdges(edges) {
 		if edge.Kind == k && (edge.Tag == ET_NONE || t == ET_NONE || edge.Tag&t != 0) {
 			e = edge
 			break
@@ -245,10 +272,14 @@ func RemoveEdge(edges map[*Edge]*Edge, k EdgeKind, t EdgeTag) {
 	}
 }
 
+type switchCase struct {
+	edge *Edge // from the test to the body
+	def  bool
+}
+
 func SwitchCase(clauseBlk *Block) (*Block, *Block, bool) {
-	test := clauseBlk.seqInEdge().Dst
-	body := test.seqOutEdge().Dst
-	return test, body, len(test.Nodes) == 1
+	c := clauseBlk.graph.switchCases[clauseBlk]
+	return c.edge.Src, c.edge.Dst, c.def
 }
 
 func (b *Block) FindInEdge(k EdgeKind, t EdgeTag, create bool) (*Edge, bool) {
@@ -256,7 +287,7 @@ func (b *Block) FindInEdge(k EdgeKind, t EdgeTag, create bool) (*Edge, bool) {
 
 	new := false
 	if e == nil && create {
-		e = &Edge{k, t, nil, b}
+		e = b.graph.newEdge(k, t, nil, b)
 		b.Inlets[e] = e
 		new = true
 	}
@@ -268,7 +299,7 @@ func (b *Block) FindHangingInEdge(src *Block, k EdgeKind, t EdgeTag, create bool
 
 	new := false
 	if (e == nil || e.Src != nil && e.Src != src) && create {
-		e = &Edge{k, t, nil, b}
+		e = b.graph.newEdge(k, t, nil, b)
 		b.Inlets[e] = e
 		new = true
 	}
@@ -279,7 +310,7 @@ func (b *Block) FindOutEdge(k EdgeKind, t EdgeTag, create bool) *Edge {
 	e := FindEdge(b.Outlets, k, t)
 
 	if e == nil && create {
-		e = &Edge{k, t, b, nil}
+		e = b.graph.newEdge(k, t, b, nil)
 		b.Outlets[e] = e
 	}
 	return e
@@ -290,15 +321,15 @@ func (b *Block) Dot() string {
 }
 
 func (b *Block) onlySeqIn() bool {
-	return len(b.Inlets) == 1 && util.PickOne(b.Inlets).Kind == EK_SEQ
+	return len(b.Inlets) == 1 && firstEdge(b.Inlets).Kind == EK_SEQ
 }
 
 func (b *Block) onlySeqOut() bool {
 	if len(b.Outlets) != 1 {
 		return false
 	}
-	blk := util.PickOne(b.Outlets).Src
-	return len(blk.Outlets) == 1 && util.PickOne(blk.Outlets).Kind == EK_SEQ
+	blk := firstEdge(b.Outlets).Src
+	return len(blk.Outlets) == 1 && firstEdge(blk.Outlets).Kind == EK_SEQ
 }
 
 func (b *Block) hasEnter(node parser.Node) bool {
@@ -349,7 +380,7 @@ func (b *Block) NextBlk() *Block {
 }
 
 func (b *Block) unwrapSeqIn() *Block {
-	for _, edge := range b.Inlets {
+	for _, edge := range orderedEdges(b.Inlets) {
 		if edge.Kind == EK_SEQ {
 			return edge.Dst
 		}
@@ -360,7 +391,7 @@ func (b *Block) unwrapSeqIn() *Block {
 }
 
 func (b *Block) unwrapSeqOut() *Block {
-	for _, edge := range b.Outlets {
+	for _, edge := range orderedEdges(b.Outlets) {
 		if edge.Kind == EK_SEQ {
 			return edge.Src
 		}
@@ -379,7 +410,13 @@ func (b *Block) join(blk *Block) {
 	isCut := from.IsInCut()
 	for _, edge := range from.Outlets {
 		edge.Src = from
-		if isCut && edge.Dst == nil {
+		if edge.Dst != nil {
+			for _, in := range edge.Dst.Inlets {
+				if in.Src == to {
+					in.Src = from
+				}
+			}
+		} else if isCut {
 			edge.Tag |= ET_CUT
 		}
 	}
@@ -395,6 +432,18 @@ func (b *Block) xOutEdges() map[*Edge]*Edge {
 	return ret
 }
 
+// drops the outlets which are already linked from the group block
+func (b *Block) dropLinked() {
+	if b.Kind != BK_GROUP {
+		return
+	}
+	for _, edge := range b.Outlets {
+		if edge.Dst != nil {
+			delete(b.Outlets, edge)
+		}
+	}
+}
+
 func (b *Block) xJmpOutEdges() map[*Edge]*Edge {
 	ret := map[*Edge]*Edge{}
 	for _, edge := range b.Outlets {
@@ -406,7 +455,7 @@ func (b *Block) xJmpOutEdges() map[*Edge]*Edge {
 }
 
 func (b *Block) seqOutEdge() *Edge {
-	for _, edge := range b.Outlets {
+	for _, edge := range orderedEdges(b.Outlets) {
 		if edge.Kind == EK_SEQ {
 			return edge
 		}
@@ -415,7 +464,7 @@ func (b *Block) seqOutEdge() *Edge {
 }
 
 func (b *Block) seqInEdge() *Edge {
-	for _, edge := range b.Inlets {
+	for _, edge := range orderedEdges(b.Inlets) {
 		if edge.Kind == EK_SEQ {
 			return edge
 		}
@@ -426,7 +475,7 @@ func (b *Block) seqInEdge() *Edge {
 // add new jmp branch from the source node of seqOut
 func (b *Block) newJmpOut(k EdgeTag) *Edge {
 	seq := b.seqOutEdge()
-	edge := &Edge{EK_JMP, k, seq.Src, nil}
+	edge := b.graph.newEdge(EK_JMP, k, seq.Src, nil)
 	seq.Src.Outlets[edge] = edge
 
 	if seq.Src.IsInCut() {
@@ -453,7 +502,7 @@ func (b *Block) hasXOut(k EdgeKind, t EdgeTag) bool {
 // add new loop branch to the dest node of seqIn
 func (b *Block) newLoopIn() {
 	seq := b.seqInEdge()
-	edge := &Edge{EK_JMP, ET_LOOP, nil, seq.Dst}
+	edge := b.graph.newEdge(EK_JMP, ET_LOOP, nil, seq.Dst)
 	seq.Dst.Inlets[edge] = edge
 
 	if seq.Dst != b {
@@ -468,7 +517,7 @@ func (b *Block) newJmpIn(t EdgeTag) {
 // stmt after try-catch has tow seq-in edges
 func (b *Block) newIn(k EdgeKind, t EdgeTag) {
 	seq := b.seqInEdge()
-	edge := &Edge{k, t, nil, seq.Dst}
+	edge := b.graph.newEdge(k, t, nil, seq.Dst)
 	seq.Dst.Inlets[edge] = edge
 
 	if seq.Dst != b {
@@ -487,8 +536,8 @@ func (b *Block) mrkSeqOutAsLoop() {
 }
 
 func (b *Block) addCutOutEdge() {
-	blk := util.PickOne(b.Outlets).Src
-	edge := &Edge{EK_SEQ, ET_NONE, blk, nil}
+	blk := firstEdge(b.Outlets).Src
+	edge := b.graph.newEdge(EK_SEQ, ET_NONE, blk, nil)
 	edge.Tag |= ET_CUT
 	blk.Outlets[edge] = edge
 
@@ -566,8 +615,22 @@ func (b *Block) HasOutCut() bool {
 }
 
 func (b *Block) IsOutCut(to *Block) bool {
-	cutEdge := b.OutEdge(ET_CUT)
-	return cutEdge != nil && cutEdge.Dst == to
+	for _, edge := range b.Outlets {
+		if edge.Tag&ET_CUT != 0 && edge.Dst == to {
+			return true
+		}
+	}
+	return false
+}
+
+// whether the outlet from `src` to `to` is cut
+func (b *Block) hasCutOut(src *Block, to *Block) bool {
+	for _, edge := range b.Outlets {
+		if edge.Tag&ET_CUT != 0 && edge.Src == src && edge.Dst == to {
+			return true
+		}
+	}
+	return false
 }
 
 func nodeToString(node parser.Node, s *span.Source) string {
@@ -608,6 +671,12 @@ type Graph struct {
 	// records basic block need to be resolved, key is the id of the scope which includes the basic block
 	hangingBrk map[int][]*Block
 
+	// map the block of switch-case to the connection of its test and body
+	switchCases map[*Block]*switchCase
+
+	// records breaks of the labels whose target is not loop
+	hangingLabelBrk map[parser.Node][]*Block
+
 	// cont jumps to tail of the loop, so when processing the labelled-cont, the jump target is unknown since
 	// the tail of the loop has not been processed, for resolving this problem, a placeholder is introduced
 	// here for imitating the jump target and the placeholder will be resolved when the tail of the loop
@@ -626,7 +695,8 @@ type Graph struct {
 	hangingThrow    map[parser.Node][]*Block
 	hasHangingThrow bool
 
-	blkSeed uint
+	blkSeed  uint
+	edgeSeed uint
 
 	// map astNode to its basic block
 	astNodeToBlock map[parser.Node]*Block
@@ -636,10 +706,12 @@ type Graph struct {
 
 func newGraph() *Graph {
 	g := &Graph{
-		labelLoop:    map[parser.Node]int{},
-		hangingBrk:   map[int][]*Block{},
-		hangingCont:  map[parser.Node][]*Block{},
-		hangingThrow: map[parser.Node][]*Block{},
+		labelLoop:       map[parser.Node]int{},
+		hangingBrk:      map[int][]*Block{},
+		switchCases:     map[*Block]*switchCase{},
+		hangingLabelBrk: map[parser.Node][]*Block{},
+		hangingCont:     map[parser.Node][]*Block{},
+		hangingThrow:    map[parser.Node][]*Block{},
 
 		astNodeToBlock: map[parser.Node]*Block{},
 		astNodeToEntry: map[parser.Node]*Block{},
@@ -689,6 +761,12 @@ func (g *Graph) isLoopHasCont(loop parser.Node) bool {
 	return len(g.hangingCont[loop]) > 0
 }
 
+func (g *Graph) newEdge(k EdgeKind, t EdgeTag, src, dst *Block) *Edge {
+	e := &Edge{k, t, src, dst, g.edgeSeed}
+	g.edgeSeed += 1
+	return e
+}
+
 func (g *Graph) newBasicBlk() *Block {
 	b := &Block{
 		id:      g.blkSeed,
@@ -699,10 +777,10 @@ func (g *Graph) newBasicBlk() *Block {
 		graph:   g,
 	}
 	g.blkSeed += 1
-	in := &Edge{Kind: EK_SEQ, Src: nil, Dst: b}
+	in := g.newEdge(EK_SEQ, ET_NONE, nil, b)
 	b.Inlets[in] = in
 
-	out := &Edge{Kind: EK_SEQ, Src: b, Dst: nil}
+	out := g.newEdge(EK_SEQ, ET_NONE, b, nil)
 	b.Outlets[out] = out
 	return b
 }
@@ -717,10 +795,10 @@ func (g *Graph) newStartBlk() *Block {
 	}
 	g.blkSeed += 1
 
-	in := &Edge{Kind: EK_SEQ, Src: nil, Dst: b}
+	in := g.newEdge(EK_SEQ, ET_NONE, nil, b)
 	b.Inlets[in] = in
 
-	out := &Edge{Kind: EK_SEQ, Src: b, Dst: nil}
+	out := g.newEdge(EK_SEQ, ET_NONE, b, nil)
 	b.Outlets[out] = out
 	return b
 }
@@ -742,7 +820,7 @@ func (g *Graph) NodesEdges() (map[string]*Block, []string, map[string]*Edge, []s
 	uniqueEdges := map[string]*Edge{}
 	astNodeMap := map[parser.Node]*Block{}
 
-	start := util.PickOne(g.Head.Inlets)
+	start := firstEdge(g.Head.Inlets)
 	uniqueEdges[start.Key()] = start
 
 	blKKeys := []string{}
@@ -768,7 +846,7 @@ func (g *Graph) NodesEdges() (map[string]*Block, []string, map[string]*Edge, []s
 			astNodeMap[astNode] = last
 		}
 
-		for _, edge := range last.Outlets {
+		for _, edge := range orderedEdges(last.Outlets) {
 			ek := edge.Key()
 			if _, ok := uniqueEdges[ek]; !ok {
 				uniqueEdges[ek] = edge
@@ -786,6 +864,47 @@ func (g *Graph) NodesEdges() (map[string]*Block, []string, map[string]*Edge, []s
 	return uniqueBlocks, blKKeys, uniqueEdges, edgeKeys, astNodeMap
 }
 
+// makes the inlets of the blocks agree with the outlets which are finally linked to them, the inlets
+// from the blocks which cannot be reached from the head are marked as cut
+func (g *Graph) syncInlets() {
+	reached := map[*Block]bool{g.Head: true}
+	whites := []*Block{g.Head}
+	for len(whites) > 0 {
+		last := whites[len(whites)-1]
+		whites = whites[:len(whites)-1]
+		for _, edge := range last.Outlets {
+			if edge.Dst != nil && edge.Tag&ET_CUT == 0 && !reached[edge.Dst] {
+				reached[edge.Dst] = true
+				whites = append(whites, edge.Dst)
+			}
+		}
+	}
+
+	blks := []*Block{}
+	IterBlock(g.Head, func(blk *Block) {
+		blks = append(blks, blk)
+	})
+
+	start := firstEdge(g.Head.Inlets)
+	for _, blk := range blks {
+		blk.Inlets = map[*Edge]*Edge{}
+	}
+	g.Head.Inlets[start] = start
+
+	for _, blk := range blks {
+		for _, edge := range orderedEdges(blk.Outlets) {
+			if edge.Dst == nil {
+				continue
+			}
+			in := g.newEdge(edge.Kind, edge.Tag, blk, edge.Dst)
+			if !reached[blk] {
+				in.Tag |= ET_CUT
+			}
+			edge.Dst.Inlets[in] = in
+		}
+	}
+}
+
 func (g *Graph) Dot() string {
 	blocks, blKKeys, edges, edgeKeys, _ := g.NodesEdges()
 
@@ -921,7 +1040,7 @@ func link(a *AnalysisCtx, from *Block, fromKind EdgeKind, fromTag EdgeTag, toKin
 
 	if from.IsOutCut(to) {
 		for _, edge := range to.Inlets {
-			if edge.Src == fromSeq {
+			if edge.Kind == EK_SEQ && from.hasCutOut(edge.Src, to) {
 				edge.Tag |= ET_CUT
 			}
 		}
@@ -941,7 +1060,7 @@ func link(a *AnalysisCtx, from *Block, fromKind EdgeKind, fromTag EdgeTag, toKin
 }
 
 func linkEdges(fromEdges map[*Edge]*Edge, fromKind EdgeKind, fromTag EdgeTag, toKind EdgeKind, toTag EdgeTag, to *Block, flag LinkFlag) {
-	for _, edge := range fromEdges {
+	for _, edge := range orderedEdges(fromEdges) {
 		if edge.Kind == fromKind && (fromTag == ET_NONE || edge.Tag&fromTag != 0) {
 			if edge.Dst == nil || flag&LF_OVERWRITE != 0 {
 				edge.Dst = to
@@ -966,7 +1085,8 @@ func IterBlock(blk *Block, cb BlockCb) {
 			break
 		}
 
-		edge := util.TakeOne(edges)
+		edge := firstEdge(edges)
+		delete(edges, edge)
 		if _, done := doneMap[edge.Dst]; !done && edge.Dst != nil {
 			cb(edge.Dst)
 			doneMap[edge.Dst] = true
-- 
2.43.0


From 41f9ac69bbf5b98d772e2ba7bcf08c5ee9dd77fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:48 +0000
Subject: [PATCH 41/44] fix: function deps are resolved in the scope of the
 body when params contain expressions

---
 ecma/astutil/astutil.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecma/astutil/astutil.go b/ecma/astutil/astutil.go
index 2232fb0..c224f5b 100644
--- a/ecma/astutil/astutil.go
+++ b/ecma/astutil/astutil.go
@@ -430,7 +430,9 @@ func BuildFnDepGraph(node parser.Node, symtab *parser.SymTab) *FnDepGraph {
 	collectScopes = func(scope *parser.Scope) {
 		fnScope[scope.Node] = scope
 		if scope.Head != nil {
-			collectScopes(scope.Head)
+			for _, s := range scope.Head.Down {
+				collectScopes(s)
+			}
 		}
 		for _, s := range scope.Down {
 			collectScopes(s)
-- 
2.43.0


From e47398c1782b97012f76d1b3b8e373ac9c39efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:19 +0000
Subject: [PATCH 42/44] fix: break and continue run the finally parts they
 pass, jumps of a stmt no longer taken over by the following return or throw

---
 ecma/analysis/ctrlflow.go | 89 ++++++++++++++++++++++++++++++++++++---
 ecma/analysis/graph.go    |  4 ++
 2 files changed, 88 insertions(+), 5 deletions(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index f713022..fbeb6c3 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -1,6 +1,7 @@
 package analysis
 
 import (
+	"sort"
 	"strings"
 
 	"github.com/hsiaosiyuan0/mole/ecma/parser"
@@ -1232,6 +1233,10 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, try, LF_NONE)
 
+		if fin != nil {
+			ac.jmpThroughFin(n, fin)
+		}
+
 		if catch != nil {
 			link(ac, try, EK_JMP, ET_JMP_E, EK_JMP, ET_JMP_E, catch, LF_NONE)
 
@@ -1258,7 +1263,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			for _, edge := range edges {
 				edge.Tag |= ET_JMP_P
 			}
-			if edge := fin.FindOutEdge(EK_JMP, ET_JMP_U, false); edge == nil {
+			if !hasHangingJmp(fin, ET_JMP_U) {
 				fin.newJmpOut(ET_JMP_P)
 			}
 		}
@@ -1266,7 +1271,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		if fin != nil {
 			link(ac, try, EK_JMP, ET_JMP_P, EK_JMP, ET_NONE, fin, LF_NONE)
 			if catch != nil {
-				link(ac, catch, EK_JMP, ET_JMP_P, EK_SEQ, ET_NONE, fin, LF_NONE)
+				link(ac, catch, EK_JMP, ET_JMP_P, EK_JMP, ET_NONE, fin, LF_NONE)
 			}
 			if catch != nil {
 				fin.newJmpIn(ET_JMP_U)
@@ -1316,7 +1321,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			if n.Target().Type() == parser.N_PROG {
 				ac.graph.hasHangingThrow = true
 			} else {
-				ac.graph.addHangingThrow(n.Target(), vn)
+				ac.graph.addHangingThrow(n.Target(), vn.seqOutEdge().Src)
 			}
 		}
 
@@ -1469,6 +1474,8 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			link(ac, brk, EK_JMP, ET_JMP_U, EK_JMP, ET_JMP_U, exit, LF_OVERWRITE)
 		}
 
+		delete(ac.graph.hangingLabelBrk, node)
+
 		vn := grpBlock(ac, enter, exit)
 		vn.addOutlets(body.xJmpOutEdges())
 		ac.pushStmt(vn)
@@ -1496,6 +1503,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		link(ac, exit, EK_JMP, ET_LOOP, EK_JMP, ET_LOOP, target, LF_NONE)
 		exit.mrkSeqOutAsCut()
+		ac.graph.jmpNode[target] = node
 
 		vn := grpBlock(ac, prev, exit)
 		ac.pushStmt(vn)
@@ -1525,6 +1533,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			id := ctx.Scope().UpperScope(filter).Id
 			ac.graph.addHangingBrk(id, exit)
 		}
+		ac.graph.jmpNode[exit] = node
 
 		ac.pushStmt(grpBlock(ac, prev, exit))
 
@@ -1605,8 +1614,8 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			arg := ac.popExpr()
 			link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, arg, LF_NONE)
 			prev = arg
+			link(ac, arg, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
 		}
-		link(ac, prev, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
 		link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 		exit.mrkSeqOutAsCut()
 
@@ -1759,7 +1768,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		loopExit := loopBlk.OutSeqEdge().Src
 		brkList := ac.graph.hangingBrk[id]
 		for _, brk := range brkList {
-			link(ac, brk, EK_JMP, ET_NONE, EK_JMP, ET_NONE, loopExit, LF_OVERWRITE)
+			link(ac, brk, EK_JMP, ET_JMP_U, EK_JMP, ET_NONE, loopExit, LF_OVERWRITE)
 			// the exit which is cut from the loop body is reached by the break
 			if !brk.IsInCut() {
 				for _, edge := range loopExit.Outlets {
@@ -1767,12 +1776,23 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 				}
 			}
 		}
+		delete(ac.graph.hangingBrk, id)
 		if isLoop(astTyp) {
 			loopBlk.dropLinked()
 		}
 	}
 }
 
+// reports whether the block has jumps of the tag which are not linked yet
+func hasHangingJmp(blk *Block, tag EdgeTag) bool {
+	for _, edge := range blk.Outlets {
+		if edge.Kind == EK_JMP && edge.Tag&tag != 0 && edge.Dst == nil {
+			return true
+		}
+	}
+	return false
+}
+
 // joins the hanging jumps of the expr with its seq-out, for the places where all of
 // them go on in the same way
 func joinJmpOut(a *AnalysisCtx, expr *Block) *Block {
@@ -1792,6 +1812,65 @@ func resolveCont(a *AnalysisCtx, loopNode parser.Node, loopTailBlk *Block) {
 		jmp := edge.Src
 		link(a, jmp, EK_JMP, ET_LOOP, EK_JMP, ET_LOOP, loopTailBlk, LF_OVERWRITE)
 	}
+	delete(a.graph.hangingCont, loopNode)
+}
+
+// the breaks and continues which leave the try or catch part run the finally part before
+// they go on to their targets
+func (a *AnalysisCtx) jmpThroughFin(n *parser.TryStmt, fin *Block) {
+	// the slots of the hanging lists in the order of the source
+	slots := []**Block{}
+	collect := func(list []*Block) {
+		for i, blk := range list {
+			rng := a.graph.jmpNode[blk].Range()
+			if rng.Lo >= n.Range().Lo && rng.Hi <= n.Fin().Range().Lo {
+				slots = append(slots, &list[i])
+			}
+		}
+	}
+	for _, list := range a.graph.hangingBrk {
+		collect(list)
+	}
+	for _, list := range a.graph.hangingLabelBrk {
+		collect(list)
+	}
+	for _, list := range a.graph.hangingCont {
+		collect(list)
+	}
+	sort.Slice(slots, func(i, j int) bool {
+		return a.graph.jmpNode[*slots[i]].Range().Lo < a.graph.jmpNode[*slots[j]].Range().Lo
+	})
+
+	linked := false
+	// links the jump to `fin`, then returns the block where it goes on
+	through := func(jmp *Block, tag EdgeTag) *Block {
+		if !linked {
+			linked = true
+			fin.newJmpIn(ET_JMP_U)
+		}
+		link(a, jmp, EK_JMP, tag, EK_JMP, ET_JMP_U, fin, LF_OVERWRITE)
+
+		edge := fin.newJmpOut(ET_JMP_U)
+		next := a.graph.newBasicBlk()
+		next.newJmpIn(ET_JMP_U)
+		edge.Dst = next
+		next.newJmpOut(tag)
+		next.mrkSeqOutAsCut()
+		return next
+	}
+
+	for _, slot := range slots {
+		node := a.graph.jmpNode[*slot]
+		if node.Type() == parser.N_STMT_BRK {
+			*slot = through(*slot, ET_JMP_U)
+		} else {
+			edge, _ := (*slot).FindInEdge(EK_JMP, ET_LOOP, false)
+			next := through(edge.Src, ET_LOOP)
+			*slot = a.graph.newBasicBlk()
+			link(a, next, EK_JMP, ET_LOOP, EK_JMP, ET_LOOP, *slot, LF_NONE)
+		}
+		a.graph.jmpNode[*slot] = node
+	}
 }
 
 func (a *Analysis) init(s *span.Source) {
diff --git a/ecma/analysis/graph.go b/ecma/analysis/graph.go
index 720bdd5..19fc02b 100644
--- a/ecma/analysis/graph.go
+++ b/ecma/analysis/graph.go
@@ -691,6 +691,9 @@ type Graph struct {
 	// key of below map is the loop which has unresolved cont-stmts
 	hangingCont map[parser.Node][]*Block
 
+	// the stmts of the hanging breaks and continues
+	jmpNode map[*Block]parser.Node
+
 	// map tryStmts to their unresolved throw-block
 	hangingThrow    map[parser.Node][]*Block
 	hasHangingThrow bool
@@ -711,6 +714,7 @@ func newGraph() *Graph {
 		switchCases:     map[*Block]*switchCase{},
 		hangingLabelBrk: map[parser.Node][]*Block{},
 		hangingCont:     map[parser.Node][]*Block{},
+		jmpNode:         map[*Block]parser.Node{},
 		hangingThrow:    map[parser.Node][]*Block{},
 
 		astNodeToBlock: map[parser.Node]*Block{},
-- 
2.43.0


From dd89ed0332503812ff30c05c2a38e39b87e1588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:15 +0000
Subject: [PATCH 43/44] fix: precedence of TypeScript union, intersection,
 conditional, keyof and typeof types, lost list members, type parameter
 defaults, type arguments and modifiers

---
 ecma/estree/ts_convert.go |  24 ++--
 ecma/parser/ts.go         | 272 +++++++++++++++++++-------------------
 ecma/parser/ts_ast.go     |  11 ++
 3 files changed, 161 insertions(+), 146 deletions(-)

diff --git a/ecma/estree/ts_convert.go b/ecma/estree/ts_convert.go
index e357329..7ff4340 100644
--- a/ecma/estree/ts_convert.go
+++ b/ecma/estree/ts_convert.go
@@ -283,15 +283,18 @@ func ConvertTsTyp(node parser.Node, ctx *ConvertCtx) Node {
 		n := node.(*parser.TsDec)
 		cls := n.Inner().(*parser.ClassDec)
 		return &TSClassDeclaration{
-			Type:       "ClassDeclaration",
-			Start:      int(n.Range().Lo),
-			End:        int(cls.Range().Hi),
-			Loc:        locOfNode(n, ctx.Parser.Source(), ctx),
-			Id:         Convert(cls.Id(), ctx),
-			SuperClass: Convert(cls.Super(), ctx),
-			Body:       Convert(cls.Body(), ctx),
-			Declare:    true,
-			Abstract:   cls.Abstract(),
+			Type:                "ClassDeclaration",
+			Start:               int(n.Range().Lo),
+			End:                 int(cls.Range().Hi),
+			Loc:                 locOfNode(n, ctx.Parser.Source(), ctx),
+			Id:                  Convert(cls.Id(), ctx),
+			TypeParameters:      ConvertTsTyp(cls.TypParams(), ctx),
+			SuperClass:          Convert(cls.Super(), ctx),
+			SuperTypeParameters: ConvertTsTyp(cls.SuperTypArgs(), ctx),
+			Implements:          elems(cls.Implements(), ctx),
+			Body:                Convert(cls.Body(), ctx),
+			Declare:             true,
+			Abstract:            cls.Abstract(),
 		}
 	case parser.N_TS_IDX_SIG:
 		n := node.(*parser.TsIdxSig)
@@ -308,6 +311,7 @@ func ConvertTsTyp(node parser.Node, ctx *ConvertCtx) Node {
 			Start:          int(n.Range().Lo),
 			End:            int(n.Range().Hi),
 			Loc:            locOfNode(n, ctx.Parser.Source(), ctx),
+			Readonly:       n.Readonly(),
 			Parameters:     elems([]parser.Node{n.Key()}, ctx),
 			TypeAnnotation: ConvertTsTyp(n.Val(), ctx),
 		}
@@ -440,7 +444,7 @@ func ConvertTsTyp(node parser.Node, ctx *ConvertCtx) Node {
 			Loc:     locOfNode(n, ctx.Parser.Source(), ctx),
 			Id:      Convert(n.Name(), ctx),
 			Body:    Convert(n.Inner(), ctx),
-			Declare: true,
+			Declare: n.Declare(),
 			Global:  n.Type() == parser.N_TS_DEC_GLOBAL,
 		}
 	case parser.N_TS_DEC_NS:
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index fbd85d5..97f8f5d 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -77,102 +77,66 @@ func (p *Parser) tsTyp(rough bool, canConst bool, canCond bool) (Node, error) {
 	if p.lexer.Peek().value == T_NEW {
 		return p.tsConstructTyp(span.Range{}, false)
 	}
-	return p.tsUnionOrIntersectType(nil, 0, rough, canConst, canCond, false)
+	typ, err := p.tsUnionOrIntersectType(T_BIT_OR, rough, canConst)
+	if err != nil {
+		return nil, err
+	}
+	if canCond && p.lexer.Peek().value == T_EXTENDS {
+		return p.tsConditional(typ)
+	}
+	return typ, nil
 }
 
-func (p *Parser) tsUnionOrIntersectType(lhs Node, minPcd int, rough bool, canConst bool, canCond bool, canFn bool) (Node, error) {
-	var err error
-	if lhs == nil {
-		ahead := p.lexer.Peek()
-		av := ahead.value
-
-		// `type K = | number | string`
-		if av != T_BIT_OR && av != T_BIT_AND {
-			lhs, err = p.tsPrimary(rough, canConst, canCond)
-			if err != nil {
-				return nil, err
-			}
+func (p *Parser) tsUnionOrIntersectType(op TokenValue, rough bool, canConst bool) (Node, error) {
+	operand := func() (Node, error) {
+		if op == T_BIT_OR {
+			return p.tsUnionOrIntersectType(T_BIT_AND, rough, canConst)
 		}
+		node, err := p.tsPrimary(rough, canConst)
+		// only `intrinsic` at the first place of the rvalue of the type alias can
+		// be parsed as `intrinsic` keywords or else return as ident
+		p.scope().EraseKind(SPK_TS_MAY_INTRINSIC)
+		return node, err
 	}
 
-	if lhs != nil && lhs.Type() == N_TS_FN_TYP && !canFn {
-		return lhs, nil
-	}
-
-	// only `intrinsic` at the first place of the rvalue of the type alias can
-	// be parsed as `intrinsic` keywords or else return as ident
-	p.scope().EraseKind(SPK_TS_MAY_INTRINSIC)
-
-	var rhs Node
+	var lhs Node
 	var elems []Node
 	var firstOp span.Range
-	var nt NodeType
-	for {
-		ahead := p.lexer.Peek()
-		av := ahead.value
-		if av != T_BIT_OR && av != T_BIT_AND {
-			break
-		}
+	var err error
 
-		kind := TokenKinds[av]
-		pcd := kind.Pcd
-		if pcd < minPcd {
-			break
-		}
+	// `type K = | number | string`
+	if p.lexer.Peek().value == op {
+		firstOp = p.lexer.Next().rng
+	}
+	if lhs, err = operand(); err != nil {
+		return nil, err
+	}
+	rng := lhs.Range()
 
-		if firstOp.Empty() {
-			firstOp = p.lexer.Next().rng
-		} else {
-			p.lexer.Next()
-		}
+	// the return type of the function type takes the rest operators
+	if fn, ok := lhs.(*TsFnTyp); ok && fn.opa.Empty() && firstOp.Empty() {
+		return lhs, nil
+	}
 
-		if nt == N_ILLEGAL {
-			if av == T_BIT_OR {
-				nt = N_TS_UNION_TYP
-			} else {
-				nt = N_TS_INTERSECT_TYP
-			}
-			elems = make([]Node, 0, 1)
-			if lhs != nil {
-				elems = append(elems, lhs)
-			}
+	elems = append(elems, lhs)
+	for p.lexer.Peek().value == op {
+		opRng := p.lexer.Next().rng
+		if firstOp.Empty() {
+			firstOp = opRng
 		}
-
-		rhs, err = p.tsPrimary(rough, canConst, canCond)
+		rhs, err := operand()
 		if err != nil {
 			return nil, err
 		}
-
-		ahead = p.lexer.Peek()
-		av = ahead.value
-		kind = TokenKinds[av]
-		for (av == T_BIT_OR || av == T_BIT_AND) && kind.Pcd > pcd {
-			pcd = kind.Pcd
-			rhs, err = p.tsUnionOrIntersectType(rhs, pcd, rough, canConst, canCond, false)
-			if err != nil {
-				return nil, err
-			}
-			ahead = p.lexer.Peek()
-			av = ahead.value
-			kind = TokenKinds[av]
-		}
-
 		elems = append(elems, rhs)
-		if lhs != nil && kind.Pcd < pcd {
-			if nt == N_TS_UNION_TYP {
-				lhs = &TsUnionTyp{N_TS_UNION_TYP, p.finRng(lhs.Range()), firstOp, elems, span.Range{}}
-			} else {
-				lhs = &TsIntersectTyp{N_TS_INTERSECT_TYP, p.finRng(lhs.Range()), firstOp, elems, span.Range{}}
-			}
-			nt = N_ILLEGAL
-		}
 	}
-
-	// for type dec with prefix bit-op: `type t = | a | b`
-	if lhs == nil {
-		return rhs, nil
+	if firstOp.Empty() {
+		return lhs, nil
+	}
+	if op == T_BIT_OR {
+		return &TsUnionTyp{N_TS_UNION_TYP, p.finRng(rng), firstOp, elems, span.Range{}}, nil
 	}
-	return lhs, nil
+	return &TsIntersectTyp{N_TS_INTERSECT_TYP, p.finRng(rng), firstOp, elems, span.Range{}}, nil
 }
 
 func (p *Parser) tsConstructTyp(rng span.Range, abstract bool) (Node, error) {
@@ -190,7 +154,7 @@ func (p *Parser) tsConstructTyp(rng span.Range, abstract bool) (Node, error) {
 		return nil, err
 	}
 
-	retTyp, err := p.tsTyp(false, false, false)
+	retTyp, err := p.tsTyp(false, false, true)
 	if err != nil {
 		return nil, err
 	}
@@ -427,7 +391,7 @@ func (p *Parser) tsPropToIdxSig(prop *TsProp) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &TsIdxSig{N_TS_IDX_SIG, prop.rng, name, typAnnot, span.Range{}}, nil
+	return &TsIdxSig{N_TS_IDX_SIG, prop.rng, name, typAnnot, span.Range{}, prop.readonly}, nil
 }
 
 // `RoughParam` is something like `a:b` which `a` is a rough-type and `b` is typAnnot
@@ -527,7 +491,10 @@ func (p *Parser) tsParen(keepParen bool) (Node, error) {
 	}
 
 	if len(params) == 1 {
-		param := params[0].(*TsRoughParam)
+		param, ok := params[0].(*TsRoughParam)
+		if !ok {
+			return nil, p.errorTok(ahead)
+		}
 		if !param.colon.Empty() {
 			return nil, p.errorAtLoc(param.colon, ERR_UNEXPECTED_TOKEN)
 		}
@@ -537,18 +504,10 @@ func (p *Parser) tsParen(keepParen bool) (Node, error) {
 			return nil, err
 		}
 
-		node := typ
 		if keepParen {
-			node = &TsParen{N_TS_PAREN, p.finRng(rng), typ, span.Range{}}
+			return &TsParen{N_TS_PAREN, p.finRng(rng), typ, span.Range{}}, nil
 		}
-
-		ahead := p.lexer.Peek()
-		av := ahead.value
-		if av != T_BIT_AND && av != T_BIT_OR {
-			return node, nil
-		}
-
-		return p.tsUnionOrIntersectType(typ, 0, false, false, false, true)
+		return typ, nil
 	}
 
 	if len(params) == 0 {
@@ -585,7 +544,7 @@ func (p *Parser) tsFnTyp(typParams Node, params []Node, parenL span.Range) (Node
 		return nil, err
 	}
 
-	retTyp, err := p.tsTyp(false, false, false)
+	retTyp, err := p.tsTyp(false, false, true)
 	if err != nil {
 		return nil, err
 	}
@@ -639,7 +598,7 @@ func (p *Parser) tsTypPredicate(name Node, asserts bool, this bool) (Node, error
 	if av == T_NAME && ahead.text == "is" {
 		p.lexer.Next()
 
-		typ, err = p.tsTyp(false, false, false)
+		typ, err = p.tsTyp(false, false, true)
 		if err != nil {
 			return nil, err
 		}
@@ -663,7 +622,7 @@ func (p *Parser) tsRef(ns Node) (Node, error) {
 		return p.tsTypPredicate(name, asserts, av == T_THIS)
 	}
 
-	if av != T_LT {
+	if av != T_LT || ahead.afterLineTerm {
 		return &TsRef{N_TS_REF, p.finRng(name.Range()), name, span.Range{}, nil, span.Range{}}, nil
 	}
 
@@ -750,7 +709,7 @@ func (p *Parser) tsTupleMember(rough bool) (Node, error) {
 		return &TsRest{N_TS_REST, p.finRng(rng), arg}, nil
 	}
 
-	arg, err := p.tsTyp(rough, false, false)
+	arg, err := p.tsTyp(rough, false, true)
 	if err != nil {
 		return nil, err
 	}
@@ -866,7 +825,7 @@ func (p *Parser) tsPredefOrRef(tok *Token) (Node, error) {
 func (p *Parser) tsTypOp(op *Token) (Node, error) {
 	rng := p.lexer.Next().rng
 	opStr := p.TokText(op)
-	arg, err := p.tsTyp(false, false, true)
+	arg, err := p.tsPrimary(false, false)
 	if err != nil {
 		return nil, err
 	}
@@ -891,7 +850,7 @@ func (p *Parser) tsAheadIsRo(ahead *Token) (bool, error) {
 
 // returns `FunctionType` or `PrimaryType` since `FunctionType`
 // is conflicts with `ParenthesizedType`
-func (p *Parser) tsPrimary(rough bool, canConst, canCond bool) (Node, error) {
+func (p *Parser) tsPrimary(rough bool, canConst bool) (Node, error) {
 	ahead := p.lexer.Peek()
 	rng := ahead.rng
 	av := ahead.value
@@ -938,7 +897,7 @@ func (p *Parser) tsPrimary(rough bool, canConst, canCond bool) (Node, error) {
 				}
 				if ok {
 					rng := p.lexer.Next().rng
-					arg, err := p.tsPrimary(false, false, false)
+					arg, err := p.tsPrimary(false, false)
 					if err != nil {
 						return nil, err
 					}
@@ -961,9 +920,10 @@ func (p *Parser) tsPrimary(rough bool, canConst, canCond bool) (Node, error) {
 			return nil, err
 		}
 		if lit.Type() == N_LIT_NULL {
-			return &TsPredef{N_TS_NULL, lit.Range(), span.Range{}, span.Range{}}, nil
+			node = &TsPredef{N_TS_NULL, lit.Range(), span.Range{}, span.Range{}}
+		} else {
+			node = &TsLit{N_TS_LIT, lit.Range(), lit, span.Range{}}
 		}
-		return &TsLit{N_TS_LIT, lit.Range(), lit, span.Range{}}, nil
 	} else if av == T_BRACE_L {
 		// obj type
 		node, err = p.tsObj(rough)
@@ -979,7 +939,16 @@ func (p *Parser) tsPrimary(rough bool, canConst, canCond bool) (Node, error) {
 	} else if av == T_TYPE_OF {
 		// type query
 		p.lexer.Next()
-		arg, err := p.tsTyp(false, false, canCond)
+		var arg Node
+		if p.lexer.Peek().value == T_NAME {
+			arg, err = p.tsRef(nil)
+		} else if p.lexer.Peek().value == T_THIS {
+			arg = &TsThis{N_TS_THIS, p.lexer.Next().rng, span.Range{}}
+		} else if p.lexer.Peek().value == T_IMPORT {
+			arg, err = p.tsImport()
+		} else {
+			arg, err = p.tsPrimary(false, false)
+		}
 		if err != nil {
 			return nil, err
 		}
@@ -997,7 +966,10 @@ func (p *Parser) tsPrimary(rough bool, canConst, canCond bool) (Node, error) {
 		}
 	} else if av == T_IMPORT {
 		// `let a: import("a")<a>;`
-		return p.tsImport()
+		node, err = p.tsImport()
+		if err != nil {
+			return nil, err
+		}
 	} else if av == T_SUB {
 		rng := p.lexer.Next().rng
 		tok, err := p.nextMustTok(T_NUM)
@@ -1007,13 +979,13 @@ func (p *Parser) tsPrimary(rough bool, canConst, canCond bool) (Node, error) {
 		numRng := tok.rng
 		arg := &NumLit{N_LIT_NUM, p.finRng(numRng), span.Range{}}
 		un := &UnaryExpr{N_EXPR_UNARY, p.finRng(rng), T_SUB, arg, span.Range{}}
-		return &TsLit{N_TS_LIT, un.Range(), un, span.Range{}}, nil
+		node = &TsLit{N_TS_LIT, un.Range(), un, span.Range{}}
 	} else if av == T_TPL_HEAD {
 		tpl, err := p.tplExpr(nil, true)
 		if err != nil {
 			return nil, err
 		}
-		return &TsLit{N_TS_LIT, tpl.Range(), tpl, span.Range{}}, nil
+		node = &TsLit{N_TS_LIT, tpl.Range(), tpl, span.Range{}}
 	}
 
 	if node != nil {
@@ -1025,8 +997,6 @@ func (p *Parser) tsPrimary(rough bool, canConst, canCond bool) (Node, error) {
 			if err != nil {
 				return nil, err
 			}
-		} else if av == T_EXTENDS && canCond {
-			return p.tsConditional(node)
 		}
 		return node, nil
 	}
@@ -1108,7 +1078,7 @@ func (p *Parser) tsMapped(rng span.Range, add, sub bool, roLoc span.Range, key N
 	var name Node
 	if av == T_NAME && !ahead.ContainsEscape() && ahead.text == "as" {
 		p.lexer.Next()
-		name, err = p.tsTyp(false, false, false)
+		name, err = p.tsTyp(false, false, true)
 		if err != nil {
 			return nil, err
 		}
@@ -1294,7 +1264,7 @@ func (p *Parser) tsIdxSig(rng span.Range, braceL span.Range, roLoc span.Range, c
 	p.advanceIfSemi(false)
 
 	if typAnnot != nil {
-		return &TsIdxSig{N_TS_IDX_SIG, p.finRng(rng), key, val, ques}, nil
+		return &TsIdxSig{N_TS_IDX_SIG, p.finRng(rng), key, val, ques, !roLoc.Empty()}, nil
 	}
 	return &TsProp{N_TS_PROP, p.finRng(rng), key, val, ques, PK_INIT, bracketL, !roLoc.Empty()}, nil
 }
@@ -1324,6 +1294,17 @@ func (p *Parser) tsPropReadonly(ahead *Token) span.Range {
 	return span.Range{}
 }
 
+// reports whether the `[` ahead starts an index signature or a mapped type: `[a:` or `[a in`
+func (p *Parser) tsAheadIsIdxSig() bool {
+	p.pushState()
+	p.lexer.Next() // `[`
+	name := p.lexer.Next()
+	ahead := p.lexer.Peek()
+	ok := name.value == T_NAME && (ahead.value == T_COLON || ahead.value == T_IN || IsName(ahead, "in", false))
+	p.popState()
+	return ok
+}
+
 func (p *Parser) tsProp(rough bool, canMapped bool, braceL span.Range) (Node, error) {
 	ahead := p.lexer.Peek()
 	rng := ahead.rng
@@ -1351,7 +1332,7 @@ func (p *Parser) tsProp(rough bool, canMapped bool, braceL span.Range) (Node, er
 			return p.tsNewSig(rng)
 		}
 	}
-	if !rough && av == T_BRACKET_L {
+	if av == T_BRACKET_L && (!rough || p.tsAheadIsIdxSig()) {
 		// IndexSignature
 		return p.tsIdxSig(rng, braceL, roLoc, canMapped)
 	}
@@ -1424,7 +1405,7 @@ func (p *Parser) tsProp(rough bool, canMapped bool, braceL span.Range) (Node, er
 
 		ahead := p.lexer.Peek()
 		av := ahead.value
-		if av != T_PAREN_L && av != T_LT {
+		if (typAnnot != nil && ahead.afterLineTerm) || (av != T_PAREN_L && av != T_LT) {
 			p.advanceIfSemi(false)
 			return &TsProp{N_TS_PROP, p.finRng(rng), name, typAnnot, ques, kind, span.Range{}, !roLoc.Empty() || !ro.Empty()}, nil
 		}
@@ -1468,7 +1449,7 @@ func (p *Parser) tsProp(rough bool, canMapped bool, braceL span.Range) (Node, er
 	var value Node
 	if tok.value == T_COLON {
 		p.lexer.Next()
-		value, err = p.tsTyp(rough, false, false)
+		value, err = p.tsTyp(rough, false, true)
 		if err != nil {
 			return nil, err
 		}
@@ -1520,17 +1501,10 @@ func (p *Parser) tsTypParam(id Node, ext, in bool) (Node, error) {
 	av := ahead.value
 	if ext && av == T_EXTENDS {
 		p.lexer.Next()
-		cons, err = p.tsTyp(false, false, false)
+		cons, err = p.tsTyp(false, false, true)
 		if err != nil {
 			return nil, err
 		}
-		if p.lexer.Peek().value == T_ASSIGN {
-			p.lexer.Next()
-			val, err = p.tsTyp(false, false, false)
-			if err != nil {
-				return nil, err
-			}
-		}
 	} else if in && av == T_NAME && ahead.text == "in" && !ahead.ContainsEscape() {
 		p.lexer.Next()
 		cons, err = p.tsTyp(false, false, true)
@@ -1538,6 +1512,13 @@ func (p *Parser) tsTypParam(id Node, ext, in bool) (Node, error) {
 			return nil, err
 		}
 	}
+	if ext && p.lexer.Peek().value == T_ASSIGN {
+		p.lexer.Next()
+		val, err = p.tsTyp(false, false, true)
+		if err != nil {
+			return nil, err
+		}
+	}
 	return &TsParam{N_TS_PARAM, p.finRng(id.Range()), id, cons, val}, nil
 }
 
@@ -1762,6 +1743,7 @@ func (p *Parser) tsTypArgs(canConst bool, noJsx bool) (Node, error) {
 	args := make([]Node, 0, 1)
 	jsx := p.feat&FEAT_JSX != 0
 	for {
+		mayExpr := false
 		ahead := p.lexer.Peek()
 		av := ahead.value
 		if av == T_GT {
@@ -1771,15 +1753,20 @@ func (p *Parser) tsTypArgs(canConst bool, noJsx bool) (Node, error) {
 
 			p.lexer.Next()
 			break
-		} else if av == T_NAME || ahead.IsLit(true) || ahead.IsCtxKw() || av == T_LT || av == T_PAREN_L || av == T_BRACE_L {
+		} else if av == T_NAME || ahead.IsLit(true) || ahead.IsCtxKw() || av == T_PAREN_L || av == T_BRACE_L {
 			// next is typ, fallthrough to below `p.tsTyp` to handle this branch
+		} else if av == T_LT || av == T_BRACKET_L || av == T_SUB || av == T_BIT_OR || av == T_BIT_AND ||
+			av == T_THIS || av == T_TYPE_OF || av == T_NEW || av == T_IMPORT || av == T_TPL_HEAD {
+			// next is either typ or the operand of the binary operator `<`, it's the latter if
+			// it cannot be parsed as typ
+			mayExpr = true
 		} else {
 			return nil, p.errTypArgMissingGT
 		}
 
 		arg, err := p.tsTyp(false, canConst, false)
 		if err != nil {
-			if av == T_LT {
+			if mayExpr {
 				return nil, p.errTypArgMissingGT
 			}
 			return nil, err
@@ -1789,17 +1776,23 @@ func (p *Parser) tsTypArgs(canConst bool, noJsx bool) (Node, error) {
 		ahead = p.lexer.Peek()
 		av = ahead.value
 		if av == T_EXTENDS {
-			id, err := p.tsPredefToName(arg)
-			if err != nil {
-				return nil, err
-			}
-
 			p.lexer.Next() // consume `extends`
 			cons, err := p.tsTyp(false, false, false)
 			if err != nil {
 				return nil, err
 			}
-			arg = &TsParam{N_TS_PARAM, p.finRng(id.Range()), id, cons, nil}
+			if p.lexer.Peek().value == T_HOOK {
+				arg, err = p.tsConditionalRest(arg, cons)
+				if err != nil {
+					return nil, err
+				}
+			} else {
+				id, err := p.tsPredefToName(arg)
+				if err != nil {
+					return nil, err
+				}
+				arg = &TsParam{N_TS_PARAM, p.finRng(id.Range()), id, cons, nil}
+			}
 		} else if !noJsx && jsx && (av == T_NAME || ahead.IsKw() || av == T_DIV || av == T_BRACE_L || (av == T_GT && nameLike && len(args) == 0)) {
 			return nil, errTypArgMaybeJsx
 		}
@@ -2317,7 +2310,7 @@ func (p *Parser) tsModDec() (*TsDec, error) {
 	if global {
 		typ = N_TS_DEC_GLOBAL
 	}
-	return &TsDec{typ, p.finRng(rng), name, blk}, nil
+	return &TsDec{typ, p.finRng(rng), name, blk, false}, nil
 }
 
 func (p *Parser) tsDec() (Node, error) {
@@ -2331,7 +2324,7 @@ func (p *Parser) tsDec() (Node, error) {
 
 	var err error
 	typ := N_ILLEGAL
-	dec := &TsDec{typ, span.Range{}, nil, nil}
+	dec := &TsDec{typ, span.Range{}, nil, nil, true}
 	if ok, kind := p.aheadIsVarDec(tok); ok {
 		dec.inner, err = p.varDecStmt(kind, false)
 		if err != nil {
@@ -2393,6 +2386,7 @@ func (p *Parser) tsDec() (Node, error) {
 
 	dec.typ = typ
 	dec.rng = p.finRng(rng)
+	dec.dec = true
 	scope.EraseKind(SPK_TS_DECLARE)
 
 	return dec, nil
@@ -2543,11 +2537,14 @@ func (p *Parser) tsImplements() ([]Node, error) {
 		if av == T_BRACE_L {
 			break
 		}
-		typ, err := p.tsTyp(false, false, false)
+		typ, err := p.tsTyp(false, false, true)
 		if err != nil {
 			return nil, err
 		}
 		impl = append(impl, typ)
+		if p.lexer.Peek().value == T_COMMA {
+			p.lexer.Next()
+		}
 	}
 	if len(impl) == 0 {
 		return nil, p.errorAtLoc(implRng, ERR_IMPLEMENT_LIST_EMPTY)
@@ -2556,17 +2553,20 @@ func (p *Parser) tsImplements() ([]Node, error) {
 }
 
 func (p *Parser) tsConditional(chk Node) (Node, error) {
-	rng := chk.Range()
-
-	var err error
-	if _, err = p.nextMustTok(T_EXTENDS); err != nil {
+	if _, err := p.nextMustTok(T_EXTENDS); err != nil {
 		return nil, err
 	}
 	ext, err := p.tsTyp(false, false, false)
 	if err != nil {
 		return nil, err
 	}
-	if _, err = p.nextMustTok(T_HOOK); err != nil {
+	return p.tsConditionalRest(chk, ext)
+}
+
+// the rest part of the conditional type, starts from its `?`
+func (p *Parser) tsConditionalRest(chk, ext Node) (Node, error) {
+	rng := chk.Range()
+	if _, err := p.nextMustTok(T_HOOK); err != nil {
 		return nil, err
 	}
 	trueTyp, err := p.tsTyp(false, false, true)
diff --git a/ecma/parser/ts_ast.go b/ecma/parser/ts_ast.go
index 26fed0b..d470181 100644
--- a/ecma/parser/ts_ast.go
+++ b/ecma/parser/ts_ast.go
@@ -530,6 +530,11 @@ type TsIdxSig struct {
 	key  Node
 	val  Node
 	ques span.Range
+	ro   bool
+}
+
+func (n *TsIdxSig) Readonly() bool {
+	return n.ro
 }
 
 func (n *TsIdxSig) Type() NodeType {
@@ -1018,6 +1023,12 @@ type TsDec struct {
 	rng   span.Range
 	name  Node
 	inner Node
+	dec   bool
+}
+
+// reports whether the declaration is introduced by `declare`
+func (n *TsDec) Declare() bool {
+	return n.dec
 }
 
 func (n *TsDec) Type() NodeType {
-- 
2.43.0


From eb62b94b4b54760663547e92be0e65196bb2c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:18 +0000
Subject: [PATCH 44/44] fix: operators after as, assertions of unary
 expressions, chained non-null marks, this parameters, rest-only function
 types and exports in nested modules of TypeScript

---
 ecma/parser/parser.go | 55 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index a6cf7c3..bd8be96 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1481,6 +1481,7 @@ func (p *Parser) modifiers() (begin, static, access, abstract, readonly, overrid
 				fieldLoc = access
 				if isField {
 					access = span.Range{}
+					accMod = ACC_MOD_NONE
 					return
 				}
 				fieldLoc = access
@@ -1581,7 +1582,10 @@ func (p *Parser) classElem(inDeclare bool) (Node, error) {
 		}
 		if p.aheadIsArgList(ahead) {
 			key := &Ident{N_NAME, fieldLoc, fieldName, false, escape, span.Range{}, true, p.newTypInfo(N_STMT_CLASS)}
-			return p.method(beginLoc, key, accMod, span.Range{}, false, PK_METHOD, false, false, false, true, false, beginLoc, false, false, false, nil)
+			if accLoc == fieldLoc {
+				accMod = ACC_MOD_NONE
+			}
+			return p.method(beginLoc, key, accMod, span.Range{}, false, PK_METHOD, false, false, false, true, staticLoc != fieldLoc, beginLoc, false, false, false, nil)
 		}
 	} else if isField {
 		ti := p.newTypInfo(N_STMT_CLASS)
@@ -1602,6 +1606,9 @@ func (p *Parser) classElem(inDeclare bool) (Node, error) {
 		return p.method(beginLoc, nil, accMod, span.Range{}, false, PK_METHOD, false, true, true, true, static, beginLoc, declare, abstract, override, nil)
 	} else if p.aheadIsArgList(ahead) && !fieldLoc.Empty() {
 		key := &Ident{N_NAME, fieldLoc, fieldName, false, escape, span.Range{}, true, p.newTypInfo(N_STMT_CLASS)}
+		if accLoc == fieldLoc {
+			accMod = ACC_MOD_NONE
+		}
 		return p.method(beginLoc, key, accMod, span.Range{}, false, PK_METHOD, false, false, false, true, false, beginLoc, false, false, false, nil)
 	} else if ahead.value == T_MUL {
 		if !isField && !readonlyLoc.Empty() {
@@ -3049,7 +3056,11 @@ func (p *Parser) leaveFn(st fnState) {
 func (p *Parser) collectNames(nodes []Node) (names []Node, firstComplicated span.Range, err error) {
 	names = make([]Node, 0, 5)
 	var ns []Node
-	for _, param := range nodes {
+	for i, param := range nodes {
+		// the `this` parameter of ts is not a binding
+		if id, ok := param.(*Ident); ok && p.ts && i == 0 && id.kw && id.val == "this" {
+			continue
+		}
 		if firstComplicated.Empty() && param.Type() != N_NAME {
 			firstComplicated = param.Range()
 		}
@@ -3276,6 +3287,10 @@ func (p *Parser) blockStmt(newScope bool, scopeKind ScopeKind) (*BlockStmt, erro
 		fn := scopeKind == SPK_TS_MODULE
 		scope = p.symtab.EnterScope(fn, false, true)
 		scope.AddKind(scopeKind)
+		if scopeKind == SPK_TS_MODULE {
+			// it's the direct scope of its own body even if the module is nested in others
+			scope.EraseKind(SPK_TS_MODULE_INDIRECT)
+		}
 	}
 	rng := tok.rng
 
@@ -3593,7 +3608,7 @@ func (p *Parser) roughParam(ctor bool) (Node, error) {
 				return nil, p.errorAtLoc(readonlyLoc, ERR_ILLEGAL_PARAMETER_MODIFIER)
 			}
 		}
-		name, err = p.tsTyp(true, false, false)
+		name, err = p.tsTyp(true, false, true)
 		if err != nil {
 			return nil, err
 		}
@@ -3657,7 +3672,7 @@ func (p *Parser) param(methodKind PropKind) (Node, error) {
 		}
 
 		ahead := p.lexer.Peek()
-		this = p.scope().IsKind(SPK_METHOD) && ahead.value == T_THIS
+		this = p.ts && ahead.value == T_THIS
 		if this {
 			if methodKind == PK_GETTER || methodKind == PK_SETTER {
 				return nil, p.errorAt(ahead.value, ahead.rng, ERR_GETTER_SETTER_WITH_THIS_PARAM)
@@ -3770,7 +3785,7 @@ func (p *Parser) paramList(firstRough bool, methodKind PropKind, typParams bool)
 
 		var param Node
 		var err error
-		if firstRough && i == 0 {
+		if firstRough && i == 0 && tok.value != T_DOT_TRI {
 			param, err = p.roughParam(ctor)
 		} else {
 			ahead := p.lexer.Peek()
@@ -4605,7 +4620,7 @@ func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (
 			return arg, nil
 		}
 
-		return &UnaryExpr{N_EXPR_UNARY, p.finRng(rng), op, arg, span.Range{}}, nil
+		return p.tsTypAssert(&UnaryExpr{N_EXPR_UNARY, p.finRng(rng), op, arg, span.Range{}}, typArgs)
 	}
 
 	if tok.value == T_AWAIT {
@@ -4613,7 +4628,11 @@ func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (
 			return nil, p.errorTok(tok)
 		}
 		p.lexer.Next()
-		return p.awaitExpr(tok)
+		arg, err := p.awaitExpr(tok)
+		if err != nil {
+			return nil, err
+		}
+		return p.tsTypAssert(arg, typArgs)
 	}
 
 	return p.updateExpr(typArgs, typArgsLoc, notColon)
@@ -4699,11 +4718,19 @@ func (p *Parser) lhs(notColon bool) (Node, error) {
 	if fn, ok := node.(*ArrowFn); ok && fn.opa.Empty() {
 		return node, nil
 	}
-	node = p.tsNoNull(node)
-	if p.lexer.Peek().value == T_DOT {
-		node, _, err = p.callExpr(node, true, false, span.Range{}, notColon)
-		if err != nil {
-			return nil, err
+	for {
+		nn := p.tsNoNull(node)
+		if nn == node {
+			break
+		}
+		node = nn
+		ahead := p.lexer.Peek()
+		av := ahead.value
+		if av == T_DOT || av == T_OPT_CHAIN || av == T_BRACKET_L || av == T_TPL_HEAD || p.aheadIsArgList(ahead) {
+			node, _, err = p.callExpr(node, true, false, span.Range{}, notColon)
+			if err != nil {
+				return nil, err
+			}
 		}
 	}
 	return node, nil
@@ -5847,7 +5874,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		if op != T_TS_AS {
 			rhs, err = p.binOperand(pcd, notIn, false)
 		} else {
-			rhs, err = p.tsTyp(false, true, false)
+			rhs, err = p.tsTyp(false, true, true)
 		}
 		if err != nil {
 			return nil, err
@@ -5856,7 +5883,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		ahead = p.lexer.Peek()
 		aheadOp := ahead.IsBin(notIn, ts)
 		kind = TokenKinds[aheadOp]
-		for aheadOp != T_ILLEGAL && !(aheadOp == T_GT && notGT) && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
+		for op != T_TS_AS && aheadOp != T_ILLEGAL && !(aheadOp == T_GT && notGT) && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
 			rhs, err = p.binExpr(rhs, kind.Pcd, logic, nullish, notGT, false)
 			if err != nil {
 				return nil, err
-- 
2.43.0

