From 85645ba63961fff3892216ea2fcacfb5bc109fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:01 +0000
Subject: [PATCH 01/56] fix: Padding.WithLeft sets the left side instead of the
 bottom

---
 padding.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/padding.go b/padding.go
index ba0906c..7a59a52 100644
--- a/padding.go
+++ b/padding.go
@@ -49,6 +49,6 @@ func (p Padding) WithBottom(s int) Padding {
 }
 
 func (p Padding) WithLeft(s int) Padding {
-	p.Bottom = s
+	p.Left = s
 	return p
 }
-- 
2.43.0


From 0d261ce094c12d39e1d4dcf4ddaaf7b3929aa185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:26 +0000
Subject: [PATCH 02/56] fix: run the commands of a top-level batch, and never
 block the event loop on a stopped command handler

---
 app.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/app.go b/app.go
index 93a426b..580cc00 100644
--- a/app.go
+++ b/app.go
@@ -241,6 +241,17 @@ func (a *appRunner) Send(msg Msg) {
 	}
 }
 
+// dispatch passes the command to the goroutine that runs commands.
+// It returns false if the program was stopped instead.
+func (a *appRunner) dispatch(cmd Cmd) bool {
+	select {
+	case <-a.ctx.Done():
+		return false
+	case a.cmds <- cmd:
+		return true
+	}
+}
+
 // handleCommands runs commands in a goroutine and sends the result to the
 // program's message channel.
 func (a *appRunner) handleCommands() {
@@ -314,6 +325,14 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				if err := a.terminal.Resize(NewRect(msg.Width, msg.Height)); err != nil {
 					return model, fmt.Errorf("resize: %w", err)
 				}
+			case BatchMsg:
+				for _, cmd := range msg {
+					if !a.dispatch(cmd) {
+						return model, nil
+					}
+				}
+
+				continue
 			case sequenceMsg:
 				go func() {
 					// Execute commands one at a time, in order.
@@ -344,7 +363,10 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 			var cmd Cmd
 			model, cmd = model.Update(msg) // run update
-			a.cmds <- cmd
+			if !a.dispatch(cmd) {
+				return model, nil
+			}
+
 			a.draw(model)
 		}
 	}
-- 
2.43.0


From 9c0c746040092ae56043f403a800bea1ba17b948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:27 +0000
Subject: [PATCH 03/56] fix: a failing draw ends the program with its error
 instead of blocking the event loop for ever

---
 app.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/app.go b/app.go
index 580cc00..b9356f5 100644
--- a/app.go
+++ b/app.go
@@ -202,7 +202,10 @@ func (a *appRunner) Run() (model Model, err error) {
 	}
 
 	a.initModel()
-	a.draw(a.model)
+
+	if err := a.draw(a.model); err != nil {
+		return a.model, err
+	}
 
 	err = a.initCancelReader()
 	if err != nil {
@@ -225,7 +228,9 @@ func (a *appRunner) Run() (model Model, err error) {
 		return model, err
 	}
 
-	a.draw(model)
+	if err := a.draw(model); err != nil {
+		return model, err
+	}
 
 	if err := a.shutdown(); err != nil {
 		return model, fmt.Errorf("shutdown: %w", err)
@@ -367,7 +372,9 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 				return model, nil
 			}
 
-			a.draw(model)
+			if err := a.draw(model); err != nil {
+				return model, err
+			}
 		}
 	}
 }
@@ -388,11 +395,12 @@ func (a *appRunner) shutdown() error {
 	return a.restore()
 }
 
-func (a *appRunner) draw(widget Widget) {
-	_, err := a.terminal.Draw(widget)
-	if err != nil {
-		a.errs <- err
+func (a *appRunner) draw(widget Widget) error {
+	if _, err := a.terminal.Draw(widget); err != nil {
+		return fmt.Errorf("draw: %w", err)
 	}
+
+	return nil
 }
 
 func (a *appRunner) init() error {
-- 
2.43.0


From 18e24d2141c5c5631a79b1718d903a619a007604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 04/56] fix: restore the terminal on every way out of the
 program, also after errors, cancellation and panics

---
 app.go | 57 +++++++++++++++++++++++++++++++++++++++++----------------
 tty.go | 10 ++++++----
 2 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/app.go b/app.go
index b9356f5..6ab7323 100644
--- a/app.go
+++ b/app.go
@@ -194,7 +194,21 @@ func (a *appRunner) Run() (model Model, err error) {
 		}
 	}()
 
-	defer a.recoverFromPanic()
+	// Whatever happens, hand the terminal back.
+	defer func() {
+		if r := recover(); r != nil {
+			err = newPanicError(r)
+		}
+
+		if shutdownErr := a.shutdown(); shutdownErr != nil && err == nil {
+			err = fmt.Errorf("shutdown: %w", shutdownErr)
+		}
+
+		var p *panicError
+		if errors.As(err, &p) {
+			fmt.Printf("Caught panic:\n\n%v\n\n%s\n", p.value, p.stack)
+		}
+	}()
 
 	err = a.init()
 	if err != nil {
@@ -228,15 +242,7 @@ func (a *appRunner) Run() (model Model, err error) {
 		return model, err
 	}
 
-	if err := a.draw(model); err != nil {
-		return model, err
-	}
-
-	if err := a.shutdown(); err != nil {
-		return model, fmt.Errorf("shutdown: %w", err)
-	}
-
-	return model, nil
+	return model, a.draw(model)
 }
 
 func (a *appRunner) Send(msg Msg) {
@@ -379,11 +385,28 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 	}
 }
 
+// panicError is the error of a program that was stopped by a panic.
+type panicError struct {
+	value any
+	stack []byte
+}
+
+func newPanicError(value any) *panicError {
+	return &panicError{value: value, stack: debug.Stack()}
+}
+
+func (p *panicError) Error() string {
+	return fmt.Sprintf("panic: %v", p.value)
+}
+
+// recoverFromPanic is deferred by goroutines that run commands.
+// It makes the event loop stop, which then restores the terminal.
 func (a *appRunner) recoverFromPanic() {
 	if r := recover(); r != nil {
-		a.shutdown()
-		fmt.Printf("Caught panic:\n\n%s\n\nRestoring terminal...\n\n", r)
-		debug.PrintStack()
+		select {
+		case <-a.ctx.Done():
+		case a.errs <- newPanicError(r):
+		}
 	}
 }
 
@@ -416,15 +439,17 @@ func (a *appRunner) init() error {
 }
 
 func (a *appRunner) restore() error {
+	var errs []error
+
 	if err := a.restoreTerminal(); err != nil {
-		return fmt.Errorf("restore terminal: %w", err)
+		errs = append(errs, fmt.Errorf("restore terminal: %w", err))
 	}
 
 	if err := a.terminal.LeaveAlternateScreen(); err != nil {
-		return fmt.Errorf("leave alt screen buffer: %w", err)
+		errs = append(errs, fmt.Errorf("leave alt screen buffer: %w", err))
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 // channelHandlers manages the series of channels returned by various processes.
diff --git a/tty.go b/tty.go
index b6c168a..81718b0 100644
--- a/tty.go
+++ b/tty.go
@@ -24,12 +24,14 @@ func (a *appRunner) initTerminal() error {
 // restoreTerminal restores the terminal to the state prior to running the
 // Bento app.
 func (a *appRunner) restoreTerminal() error {
+	var errs []error
+
 	if err := a.terminal.DisableBracketedPaste(); err != nil {
-		return fmt.Errorf("disable bracketed paste: %w", err)
+		errs = append(errs, fmt.Errorf("disable bracketed paste: %w", err))
 	}
 
 	if err := a.terminal.ShowCursor(); err != nil {
-		return fmt.Errorf("show cursor: %w", err)
+		errs = append(errs, fmt.Errorf("show cursor: %w", err))
 	}
 	// a.disableMouse()
 
@@ -44,10 +46,10 @@ func (a *appRunner) restoreTerminal() error {
 	// time.Sleep(time.Millisecond * 10) //nolint:gomnd
 	// }
 	if err := a.terminal.DisableRawMode(); err != nil {
-		return fmt.Errorf("disable raw mode: %w", err)
+		errs = append(errs, fmt.Errorf("disable raw mode: %w", err))
 	}
 
-	return nil
+	return errors.Join(errs...)
 }
 
 func (a *appRunner) initCancelReader() error {
-- 
2.43.0


From 104c0d1ae4d908c76a2ba592dd0795eca308ed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:14 +0000
Subject: [PATCH 05/56] fix: sequences survive panicking and nil commands in
 batches and wait for nested sequences

---
 app.go | 72 ++++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 47 insertions(+), 25 deletions(-)

diff --git a/app.go b/app.go
index 6ab7323..0fca897 100644
--- a/app.go
+++ b/app.go
@@ -303,6 +303,52 @@ func (a *appRunner) handleCmd(cmd Cmd) {
 	}()
 }
 
+// executeAll executes commands one at a time, in order.
+// It returns false if one of them panicked.
+func (a *appRunner) executeAll(cmds []Cmd) bool {
+	for _, cmd := range cmds {
+		if !a.execute(cmd) {
+			return false
+		}
+	}
+
+	return true
+}
+
+// execute runs a command of a sequence and waits for everything it expands to.
+func (a *appRunner) execute(cmd Cmd) (ok bool) {
+	if cmd == nil {
+		return true
+	}
+
+	defer a.recoverFromPanic()
+
+	switch msg := cmd().(type) {
+	case sequenceMsg:
+		return a.executeAll(msg)
+
+	case BatchMsg:
+		var g errgroup.Group
+
+		for _, cmd := range msg {
+			cmd := cmd
+			g.Go(func() error {
+				if !a.execute(cmd) {
+					return ErrInterrupted
+				}
+
+				return nil
+			})
+		}
+
+		return g.Wait() == nil // wait for all commands from batch msg to finish
+
+	default:
+		a.Send(msg)
+		return true
+	}
+}
+
 func (a *appRunner) handleResize() {
 	ch := make(chan struct{})
 
@@ -345,31 +391,7 @@ func (a *appRunner) eventLoop(model Model) (Model, error) {
 
 				continue
 			case sequenceMsg:
-				go func() {
-					// Execute commands one at a time, in order.
-					for _, cmd := range msg {
-						if cmd == nil {
-							continue
-						}
-
-						msg := cmd()
-						if batchMsg, ok := msg.(BatchMsg); ok {
-							g, _ := errgroup.WithContext(a.ctx)
-							for _, cmd := range batchMsg {
-								cmd := cmd
-								g.Go(func() error {
-									a.Send(cmd())
-									return nil
-								})
-							}
-
-							_ = g.Wait() // wait for all commands from batch msg to finish
-							continue
-						}
-
-						a.Send(msg)
-					}
-				}()
+				go a.executeAll(msg)
 			}
 
 			var cmd Cmd
-- 
2.43.0


From caae8800485ae8f4a7c4bc12904399a99e83607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 06/56] fix: stop reading the terminal when the program ends

---
 app.go               | 9 +++++++++
 inputreader_other.go | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/app.go b/app.go
index 0fca897..fee5be7 100644
--- a/app.go
+++ b/app.go
@@ -435,6 +435,15 @@ func (a *appRunner) recoverFromPanic() {
 func (a *appRunner) shutdown() error {
 	a.cancelCtx()
 
+	// Stop reading input: what is typed from now on is not ours.
+	if a.cancelReader != nil {
+		if a.cancelReader.Cancel() {
+			a.waitForReadLoop()
+		}
+
+		_ = a.cancelReader.Close()
+	}
+
 	a.handlers.shutdown()
 
 	return a.restore()
diff --git a/inputreader_other.go b/inputreader_other.go
index 0d3d570..b3d8f93 100644
--- a/inputreader_other.go
+++ b/inputreader_other.go
@@ -9,5 +9,10 @@ import (
 )
 
 func newInputReader(r io.Reader) (cancelreader.CancelReader, error) {
+	// A blocked read can only be cancelled on the underlying file.
+	if t, ok := r.(*Terminal); ok {
+		r = t.Input()
+	}
+
 	return cancelreader.NewReader(r)
 }
-- 
2.43.0


From a1050df250d65bfe761d3b020c6c60df792cf01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:17 +0000
Subject: [PATCH 07/56] fix: announce the initial window size before, not
 concurrently with, later resizes

---
 app.go             | 5 +----
 signals_unix.go    | 7 ++++++-
 signals_windows.go | 4 +++-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/app.go b/app.go
index fee5be7..ff54c5c 100644
--- a/app.go
+++ b/app.go
@@ -352,10 +352,7 @@ func (a *appRunner) execute(cmd Cmd) (ok bool) {
 func (a *appRunner) handleResize() {
 	ch := make(chan struct{})
 
-	// Get the initial terminal size and send it to the program.
-	go a.checkResize()
-
-	// Listen for window resizes.
+	// Send the initial terminal size to the program and listen for window resizes.
 	go a.listenForResize(ch)
 
 	a.handlers.add(ch)
diff --git a/signals_unix.go b/signals_unix.go
index 3a25748..32d5cd7 100644
--- a/signals_unix.go
+++ b/signals_unix.go
@@ -9,7 +9,8 @@ import (
 	"syscall"
 )
 
-// listenForResize sends messages (or errors) when the terminal resizes.
+// listenForResize sends messages (or errors) with the initial size of the
+// terminal and when it resizes.
 // Argument output should be the file descriptor for the terminal; usually
 // os.Stdout.
 func (a *appRunner) listenForResize(done chan struct{}) {
@@ -21,6 +22,10 @@ func (a *appRunner) listenForResize(done chan struct{}) {
 		close(done)
 	}()
 
+	// Get the initial terminal size. Not earlier and not concurrently, otherwise a
+	// resize in between could be missed or overtaken by the outdated size.
+	a.checkResize()
+
 	for {
 		select {
 		case <-a.ctx.Done():
diff --git a/signals_windows.go b/signals_windows.go
index 43fb53f..6346815 100644
--- a/signals_windows.go
+++ b/signals_windows.go
@@ -6,5 +6,7 @@ package bento
 // listenForResize is not available on windows because windows does not
 // implement syscall.SIGWINCH.
 func (a *appRunner) listenForResize(done chan struct{}) {
-	close(done)
+	defer close(done)
+
+	a.checkResize()
 }
-- 
2.43.0


From 3473348fa943d10c2ef471c0c859383f6dad1ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:43 +0000
Subject: [PATCH 08/56] fix: escape sequences and characters that span two
 reads are not torn apart

---
 input.go | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/input.go b/input.go
index 4490cb3..b2829a1 100644
--- a/input.go
+++ b/input.go
@@ -609,14 +609,36 @@ loop:
 }
 
 var (
-	unknownCSIRe  = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]`)
-	mouseSGRRegex = regexp.MustCompile(`(\d+);(\d+);(\d+)([Mm])`)
+	unknownCSIRe = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]`)
+	// incompleteCSIRe matches a CSI sequence up to, but not including, its final byte.
+	incompleteCSIRe = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*$`)
+	mouseSGRRegex   = regexp.MustCompile(`(\d+);(\d+);(\d+)([Mm])`)
 )
 
+// X10 mouse events have a length of 6 bytes
+const mouseEventX10Len = 6
+
+// isIncompleteSequence tells if the input is the beginning of an escape
+// sequence that further input may complete.
+func isIncompleteSequence(input []byte) bool {
+	if _, ok := seqPrefixes[string(input)]; ok {
+		return true
+	}
+
+	if bytes.HasPrefix(input, []byte("\x1b[M")) {
+		return len(input) < mouseEventX10Len
+	}
+
+	return incompleteCSIRe.Match(input)
+}
+
 func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
+	// More data may complete the sequence that ends the buffer.
+	if canHaveMoreData && isIncompleteSequence(b) {
+		return 0, nil
+	}
+
 	// Detect mouse events.
-	// X10 mouse events have a length of 6 bytes
-	const mouseEventX10Len = 6
 	if len(b) >= mouseEventX10Len && b[0] == '\x1b' && b[1] == '[' {
 		switch b[2] {
 		case 'M':
@@ -672,6 +694,10 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 	var runes []rune
 	for rw := 0; i < len(b); i += rw {
 		var r rune
+		if canHaveMoreData && !utf8.FullRune(b[i:]) {
+			// The rest of the last rune is yet to be read.
+			return 0, nil
+		}
 		r, rw = utf8.DecodeRune(b[i:])
 		if r == utf8.RuneError || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
 			// Rune errors are handled below; control characters and spaces will
@@ -818,6 +844,17 @@ var extSequences = func() map[string]Key {
 	return s
 }()
 
+// seqPrefixes contains what the valid sequences may start with.
+var seqPrefixes = func() map[string]struct{} {
+	prefixes := map[string]struct{}{}
+	for seq := range extSequences {
+		for i := 1; i < len(seq); i++ {
+			prefixes[seq[:i]] = struct{}{}
+		}
+	}
+	return prefixes
+}()
+
 // detectSequence uses a longest prefix match over the input
 // sequence and a hash map.
 func detectSequence(input []byte) (hasSeq bool, width int, msg Msg) {
-- 
2.43.0


From a14fdd2e1880fdfb5c27ba3126626a8bfc80d66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:53 +0000
Subject: [PATCH 09/56] fix: focus reports are recognized next to other input

---
 input.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/input.go b/input.go
index b2829a1..52d5bfb 100644
--- a/input.go
+++ b/input.go
@@ -746,9 +746,14 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 // nolint: gomnd
 func detectReportFocus(input []byte) (hasRF bool, width int, msg Msg) {
 	switch {
-	case bytes.Equal(input, []byte("\x1b[I")):
+	case bytes.HasPrefix(input, []byte("\x1b[I")):
 		return true, 3, FocusMsg{}
-	case bytes.Equal(input, []byte("\x1b[O")):
+	case bytes.HasPrefix(input, []byte("\x1b[O")):
+		if len(input) > 3 {
+			if _, isKey := extSequences[string(input[:4])]; isKey {
+				return false, 0, nil
+			}
+		}
 		return true, 3, BlurMsg{}
 	}
 	return false, 0, nil
-- 
2.43.0


From f471975b903e7a337886baf2616fb045a76d6e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:01 +0000
Subject: [PATCH 10/56] fix: an SGR mouse report starts right after its
 introducer

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index 52d5bfb..4fc8ff7 100644
--- a/input.go
+++ b/input.go
@@ -612,7 +612,7 @@ var (
 	unknownCSIRe = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*[\x40-\x7e]`)
 	// incompleteCSIRe matches a CSI sequence up to, but not including, its final byte.
 	incompleteCSIRe = regexp.MustCompile(`^\x1b\[[\x30-\x3f]*[\x20-\x2f]*$`)
-	mouseSGRRegex   = regexp.MustCompile(`(\d+);(\d+);(\d+)([Mm])`)
+	mouseSGRRegex   = regexp.MustCompile(`^(\d+);(\d+);(\d+)([Mm])`)
 )
 
 // X10 mouse events have a length of 6 bytes
-- 
2.43.0


From 2f249d07b15a30fd202e18ed5b3b319a8167de68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 11/56] fix: input that comes with or before the end of the
 stream is not lost

---
 input.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/input.go b/input.go
index 4fc8ff7..026b5c2 100644
--- a/input.go
+++ b/input.go
@@ -564,10 +564,7 @@ func readAnsiInputs(ctx context.Context, msgs chan<- Msg, input io.Reader) error
 loop:
 	for {
 		// Read and block.
-		numBytes, err := input.Read(buf[:])
-		if err != nil {
-			return fmt.Errorf("error reading input: %w", err)
-		}
+		numBytes, readErr := input.Read(buf[:])
 		b := buf[:numBytes]
 		if leftOverFromPrevIteration != nil {
 			b = append(leftOverFromPrevIteration, b...)
@@ -580,12 +577,16 @@ loop:
 		// be more data in the OS buffer ready to be read in, to complete
 		// the last message in the input. In that case, we will retry with
 		// the left over data in the next iteration.
-		canHaveMoreData := numBytes == len(buf)
+		canHaveMoreData := numBytes == len(buf) && readErr == nil
 
 		var i, w int
 		for i, w = 0, 0; i < len(b); i += w {
 			var msg Msg
 			w, msg = detectOneMsg(b[i:], canHaveMoreData)
+			if w == 0 && readErr != nil {
+				// The end of a bracketed paste will never come.
+				_, w, msg = detectBracketedPaste(append(b[i:len(b):len(b)], bpEnd...))
+			}
 			if w == 0 {
 				// Expecting more bytes beyond the current buffer. Try waiting
 				// for more input.
@@ -605,6 +606,10 @@ loop:
 			}
 		}
 		leftOverFromPrevIteration = nil
+
+		if readErr != nil {
+			return fmt.Errorf("error reading input: %w", readErr)
+		}
 	}
 }
 
@@ -759,6 +764,9 @@ func detectReportFocus(input []byte) (hasRF bool, width int, msg Msg) {
 	return false, 0, nil
 }
 
+// bpEnd is the sequence that ends a bracketed paste.
+const bpEnd = "\x1b[201~"
+
 // detectBracketedPaste detects an input pasted while bracketed
 // paste mode was enabled.
 //
@@ -777,7 +785,6 @@ func detectBracketedPaste(input []byte) (hasBp bool, width int, msg Msg) {
 
 	// If we saw the start sequence, then we must have an end sequence
 	// as well. Find it.
-	const bpEnd = "\x1b[201~"
 	idx := bytes.Index(input, []byte(bpEnd))
 	inputLen := len(bpStart) + idx + len(bpEnd)
 	if idx == -1 {
-- 
2.43.0


From 95079a9b41a1c6c42e1bb967b9c051808fc53afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:06 +0000
Subject: [PATCH 12/56] fix: unknown CSI messages do not share the read buffer

---
 input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/input.go b/input.go
index 026b5c2..8a1b1c2 100644
--- a/input.go
+++ b/input.go
@@ -883,7 +883,7 @@ func detectSequence(input []byte) (hasSeq bool, width int, msg Msg) {
 	}
 	// Is this an unknown CSI sequence?
 	if loc := unknownCSIRe.FindIndex(input); loc != nil {
-		return true, loc[1], unknownCSISequenceMsg(input[:loc[1]])
+		return true, loc[1], unknownCSISequenceMsg(bytes.Clone(input[:loc[1]]))
 	}
 
 	return false, 0, nil
-- 
2.43.0


From 53ed637cf1a4418aa29d83f68cba81400d9e1d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:08 +0000
Subject: [PATCH 13/56] fix: U+FFFD is a character like any other in input and
 pastes

---
 input.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/input.go b/input.go
index 8a1b1c2..1081f8e 100644
--- a/input.go
+++ b/input.go
@@ -704,7 +704,7 @@ func detectOneMsg(b []byte, canHaveMoreData bool) (w int, msg Msg) {
 			return 0, nil
 		}
 		r, rw = utf8.DecodeRune(b[i:])
-		if r == utf8.RuneError || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
+		if (r == utf8.RuneError && rw <= 1) || r <= rune(keyUS) || r == rune(keyDEL) || r == ' ' {
 			// Rune errors are handled below; control characters and spaces will
 			// be handled by detectSequence in the next call to detectOneMsg.
 			break
@@ -801,7 +801,7 @@ func detectBracketedPaste(input []byte) (hasBp bool, width int, msg Msg) {
 	k := Key{Type: KeyRunes, Paste: true}
 	for len(paste) > 0 {
 		r, w := utf8.DecodeRune(paste)
-		if r != utf8.RuneError {
+		if r != utf8.RuneError || w > 1 {
 			k.Runes = append(k.Runes, r)
 		}
 		paste = paste[w:]
-- 
2.43.0


From d45a5cb63250f28c9c113f51998e04056921b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:55 +0000
Subject: [PATCH 14/56] fix: colors that can not be displayed neither reset
 other attributes nor crash the drawing

---
 internal/ansi/command.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/internal/ansi/command.go b/internal/ansi/command.go
index 25d2aa8..4c72b09 100644
--- a/internal/ansi/command.go
+++ b/internal/ansi/command.go
@@ -60,16 +60,23 @@ var _ Command = (*SetColors)(nil)
 type SetColors Colors
 
 func (c SetColors) WriteANSI(w io.Writer) error {
-	switch {
-	case c.Foreground != nil && c.Background != nil:
-		return write(w, CSI+c.Foreground.Sequence(false)+";"+c.Background.Sequence(true)+"m")
-	case c.Foreground == nil && c.Background != nil:
-		return write(w, CSI+c.Foreground.Sequence(false)+"m")
-	case c.Foreground != nil && c.Background == nil:
-		return write(w, CSI+c.Background.Sequence(true)+"m")
-	default:
-		return nil
+	return write(w, CSI+colorSequence(c.Foreground, false)+";"+colorSequence(c.Background, true)+"m")
+}
+
+// colorSequence returns the sequence of a color. A color that can not be
+// displayed gives the default color: an empty parameter would reset all attributes.
+func colorSequence(color termenv.Color, bg bool) string {
+	if color != nil {
+		if seq := color.Sequence(bg); seq != "" {
+			return seq
+		}
 	}
+
+	if bg {
+		return "49"
+	}
+
+	return "39"
 }
 
 var _ Command = (*Print)(nil)
-- 
2.43.0


From 8cc972c1ae49b92b269f71ce31943bfd313a856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 15/56] fix: hidden text is hidden, and one kind of blinking
 survives the end of the other

---
 terminal_backend.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/terminal_backend.go b/terminal_backend.go
index 42a61b4..0578b76 100644
--- a/terminal_backend.go
+++ b/terminal_backend.go
@@ -336,6 +336,18 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 
 	if removed.Contains(ModifierSlowBlink) || removed.Contains(ModifierRapidBlink) {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoBlink))
+
+		if d.To.Contains(ModifierSlowBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrSlowBlink))
+		}
+
+		if d.To.Contains(ModifierRapidBlink) {
+			cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
+		}
+	}
+
+	if removed.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrNoHidden))
 	}
 
 	added := bit.Difference(d.To, d.From)
@@ -372,6 +384,10 @@ func (d _StyleModifierDiff) queue(w io.Writer) error {
 		cmds = append(cmds, ansi.SetAttribute(ansi.AttrRapidBlink))
 	}
 
+	if added.Contains(ModifierHidden) {
+		cmds = append(cmds, ansi.SetAttribute(ansi.AttrHidden))
+	}
+
 	if err := queue(w, cmds...); err != nil {
 		return fmt.Errorf("queue: %w", err)
 	}
-- 
2.43.0


From 199b2bcaa2236d825bd78f9224faf418473efac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:57 +0000
Subject: [PATCH 16/56] fix: SetStringN skips zero-width graphemes and stops
 before a grapheme that does not fit

---
 buffer.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/buffer.go b/buffer.go
index 9c33822..4078a63 100644
--- a/buffer.go
+++ b/buffer.go
@@ -113,6 +113,14 @@ func (b *Buffer) SetStringN(x, y int, value string, maxWidth int, style Style) (
 		symbol := graphemes.Str()
 		width := graphemes.Width()
 
+		if width == 0 {
+			continue
+		}
+
+		if width > remainingWidth {
+			break
+		}
+
 		remainingWidth -= width
 
 		b.CellAt(Position{x, y}).SetSymbol(symbol).SetStyle(style)
-- 
2.43.0


From 4bfdb8b00a84f39d5cab67fa4b18420ac73389cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:59 +0000
Subject: [PATCH 17/56] fix: clearing a fixed viewport leaves the rest of the
 screen alone

---
 terminal.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/terminal.go b/terminal.go
index 9e71d4a..65ae7e2 100644
--- a/terminal.go
+++ b/terminal.go
@@ -258,16 +258,20 @@ func (t *Terminal) Clear() error {
 			return fmt.Errorf("clear after cursor: %w", err)
 		}
 	case ViewportFixed:
-		area := t.viewportArea
+		// There is no sequence that clears just the area.
+		blank := NewBufferEmpty(t.viewportArea)
 
-		for y := area.Top(); y < area.Bottom(); y++ {
-			if err := t.backend.SetCursorPosition(Position{X: 0, Y: y}); err != nil {
-				return fmt.Errorf("set cursor position: %w", err)
-			}
+		cells := make([]PositionedCell, 0, len(blank.content))
+		for i, cell := range blank.content {
+			cells = append(cells, PositionedCell{Cell: cell, Position: blank.PosOf(i)})
+		}
+
+		if err := t.backend.Draw(cells); err != nil {
+			return fmt.Errorf("draw: %w", err)
+		}
 
-			if err := t.backend.ClearAfterCursor(); err != nil {
-				return fmt.Errorf("clear after cursor: %w", err)
-			}
+		if err := t.backend.Flush(); err != nil {
+			return fmt.Errorf("flush: %w", err)
 		}
 	}
 
-- 
2.43.0


From fd7abef666835112d092c54b852475f76b53d584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 18/56] fix: number the symbols of the constraint solver
 without overflow

With about 35 constraints and more the 8 bit counter wrapped around, so that
different symbols became equal and the layout was wrong or never finished.
---
 internal/casso/casso.go  | 2 +-
 internal/casso/solver.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/casso/casso.go b/internal/casso/casso.go
index 1487d5b..c04cd62 100644
--- a/internal/casso/casso.go
+++ b/internal/casso/casso.go
@@ -182,7 +182,7 @@ const (
 )
 
 type _Symbol struct {
-	Value uint8
+	Value uint64
 	Type  SymbolType
 }
 
diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index fd223d3..4bca582 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -39,7 +39,7 @@ type Solver struct {
 	infeasibleRows     []_Symbol
 	objective          _Row
 	artificial         *_Row
-	idTick             uint8
+	idTick             uint64
 }
 
 func NewSolver() Solver {
-- 
2.43.0


From 95c4b790629aaeac3e8139e8b86c26d949d1279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 19/56] fix: make the constraint solver choose its pivots in a
 fixed order

The pivots were chosen in the order of a map, so that a layout whose solution is
not unique (with the legacy alignment) was split differently from one frame to the next.
---
 internal/casso/solver.go | 42 ++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/internal/casso/solver.go b/internal/casso/solver.go
index 4bca582..fe68da5 100644
--- a/internal/casso/solver.go
+++ b/internal/casso/solver.go
@@ -303,7 +303,8 @@ func (s *Solver) getLeavingRow(entering _Symbol) (_Symbol, _Row, bool) {
 			if temp < 0 {
 				tempRatio := -r.constant / temp
 
-				if tempRatio < ratio {
+				// Ties are broken by age, as the order of a map is not the same each time.
+				if tempRatio < ratio || tempRatio == ratio && ok && s.Value < found.Value {
 					ratio = tempRatio
 					found = s
 					ok = true
@@ -429,10 +430,12 @@ func (s *Solver) getVarSymbol(v Variable) _Symbol {
 }
 
 func chooseSubject(row _Row, tag _Tag) _Symbol {
-	for s := range row.cells {
-		if s.Type == SymbolTypeExternal {
-			return s
-		}
+	external := oldestSymbol(row, func(s _Symbol, _ float64) bool {
+		return s.Type == SymbolTypeExternal
+	})
+
+	if external.Type != SymbolTypeInvalid {
+		return external
 	}
 
 	for _, s := range []_Symbol{tag.marker, tag.other} {
@@ -458,22 +461,27 @@ func allDummies(row _Row) bool {
 }
 
 func getEnteringSymbol(objective _Row) _Symbol {
-	for s, v := range objective.cells {
-		if s.Type != SymbolTypeDummy && v < 0 {
-			return s
-		}
-	}
-
-	return newInvalidSymbol()
+	return oldestSymbol(objective, func(s _Symbol, v float64) bool {
+		return s.Type != SymbolTypeDummy && v < 0
+	})
 }
 
 func anyPivotableSymbol(row _Row) _Symbol {
-	for s := range row.cells {
-		switch s.Type {
-		case SymbolTypeSlack, SymbolTypeError:
-			return s
+	return oldestSymbol(row, func(s _Symbol, _ float64) bool {
+		return s.Type == SymbolTypeSlack || s.Type == SymbolTypeError
+	})
+}
+
+// oldestSymbol returns the matching symbol of the row that was created first. Any of them would do, but the choice
+// must not depend on the order of the map: the same constraints have to result in the same solution each time.
+func oldestSymbol(row _Row, match func(s _Symbol, coefficient float64) bool) _Symbol {
+	oldest := newInvalidSymbol()
+
+	for s, v := range row.cells {
+		if match(s, v) && (oldest.Type == SymbolTypeInvalid || s.Value < oldest.Value) {
+			oldest = s
 		}
 	}
 
-	return newInvalidSymbol()
+	return oldest
 }
-- 
2.43.0


From 8564cbc675e0723f3e8966f94824caa6e93e47cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 20/56] fix: space around puts space around all segments, also
 before the first and after the last

---
 layout.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/layout.go b/layout.go
index f6f1b9c..ed4617e 100644
--- a/layout.go
+++ b/layout.go
@@ -426,11 +426,11 @@ func configureFlexConstraints(
 			}
 		}
 	case FlexSpaceAround:
-		if len(spacersExceptFirstAndLast) >= 2 {
-			for _, indices := range combinations(len(spacersExceptFirstAndLast), 2) {
+		if len(spacers) >= 2 {
+			for _, indices := range combinations(len(spacers), 2) {
 				i, j := indices[0], indices[1]
 
-				left, right := spacersExceptFirstAndLast[i], spacersExceptFirstAndLast[j]
+				left, right := spacers[i], spacers[j]
 
 				if err := solver.AddConstraint(left.hasSize(right.size(), _spacerSizeEq)); err != nil {
 					return fmt.Errorf("add has size constraint: %w", err)
@@ -438,7 +438,7 @@ func configureFlexConstraints(
 			}
 		}
 
-		for _, s := range spacersExceptFirstAndLast {
+		for _, s := range spacers {
 			err := solver.AddConstraints(
 				s.hasMinSize(spacing, _spacerSizeEq),
 				s.hasSize(area.size(), _spaceGrow),
-- 
2.43.0


From 3676908a81fa4c629d7e99161d7ffed0d6fbe391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:03 +0000
Subject: [PATCH 21/56] fix: Layout.WithConstraints must not write into the
 constraints of the layout it derives from

---
 layout.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/layout.go b/layout.go
index ed4617e..2c0fc78 100644
--- a/layout.go
+++ b/layout.go
@@ -3,6 +3,7 @@ package bento
 import (
 	"fmt"
 	"math"
+	"slices"
 
 	"github.com/metafates/bento/internal/casso"
 )
@@ -99,7 +100,7 @@ func (l Layout) WithSpacing(spacing Spacing) Layout {
 }
 
 func (l Layout) WithConstraints(constraints ...Constraint) Layout {
-	l.Constraints = append(l.Constraints, constraints...)
+	l.Constraints = slices.Concat(l.Constraints, constraints)
 	return l
 }
 
-- 
2.43.0


From dc7ef1d83989c8a1c1e2a2af1f3a88cc3d61aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:00 +0000
Subject: [PATCH 22/56] fix: the line truncator must return one row per line
 and forget the previous one

---
 internal/reflow/truncator.go | 74 ++++++++++++++++--------------------
 1 file changed, 32 insertions(+), 42 deletions(-)

diff --git a/internal/reflow/truncator.go b/internal/reflow/truncator.go
index e891787..d2c81fe 100644
--- a/internal/reflow/truncator.go
+++ b/internal/reflow/truncator.go
@@ -35,64 +35,54 @@ func (lt *LineTruncator) NextLine() (WrappedLine, bool) {
 		return WrappedLine{}, false
 	}
 
-	clear(lt.currentLine)
+	lt.currentLine = lt.currentLine[:0]
 
 	var currentLineWidth int
 
-	linesExhausted := true
 	horizontalOffset := lt.horizontalOffset
-	currentAlignment := bento.AlignmentLeft
-
-	var lastIndex int
-	for i, line := range lt.inputLines {
-		lastIndex = i
-		currentLine := line.Graphemes
-		currentAlignment = line.Alignment
-		alignment := line.Alignment
-		linesExhausted = false
-
-		for _, g := range currentLine {
-			if g.Width() > lt.maxLineWidth {
-				continue
-			}
 
-			if currentLineWidth+g.Width() > lt.maxLineWidth {
-				break
-			}
+	if len(lt.inputLines) == 0 {
+		return WrappedLine{}, false
+	}
 
-			var symbol string
+	line := lt.inputLines[0]
+	lt.inputLines = lt.inputLines[1:]
 
-			if horizontalOffset == 0 || alignment != bento.AlignmentLeft {
-				symbol = g.String()
-			} else {
-				width := g.Width()
-
-				if width > horizontalOffset {
-					symbol = trimOffset(g.String(), horizontalOffset)
-					horizontalOffset = 0
-				} else {
-					horizontalOffset -= width
-				}
-			}
+	for _, g := range line.Graphemes {
+		if g.Width() > lt.maxLineWidth {
+			continue
+		}
 
-			currentLineWidth += uniseg.StringWidth(symbol)
-			lt.currentLine = append(lt.currentLine, textwidget.StyledGrapheme{
-				Style:    g.Style,
-				Grapheme: grapheme.New(symbol),
-			})
+		if currentLineWidth+g.Width() > lt.maxLineWidth {
+			break
 		}
-	}
 
-	lt.inputLines = lt.inputLines[min(len(lt.inputLines), lastIndex+1):]
+		var symbol string
 
-	if linesExhausted {
-		return WrappedLine{}, false
+		if horizontalOffset == 0 || line.Alignment != bento.AlignmentLeft {
+			symbol = g.String()
+		} else {
+			width := g.Width()
+
+			if width > horizontalOffset {
+				symbol = trimOffset(g.String(), horizontalOffset)
+				horizontalOffset = 0
+			} else {
+				horizontalOffset -= width
+			}
+		}
+
+		currentLineWidth += uniseg.StringWidth(symbol)
+		lt.currentLine = append(lt.currentLine, textwidget.StyledGrapheme{
+			Style:    g.Style,
+			Grapheme: grapheme.New(symbol),
+		})
 	}
 
 	return WrappedLine{
 		Line:      lt.currentLine,
 		Width:     currentLineWidth,
-		Alignment: currentAlignment,
+		Alignment: line.Alignment,
 	}, true
 }
 
-- 
2.43.0


From 196392fc64daf62cef44538b1516f368a494e37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:02 +0000
Subject: [PATCH 23/56] fix: the word wrapper must empty its pending word and
 line instead of zeroing their graphemes

---
 internal/reflow/wrapper.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index b406f41..2d771a6 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -52,9 +52,9 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		nonWhitespacePrevious bool
 	)
 
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 	ww.pendingWhitespace.Clear()
-	clear(pendingLine)
+	pendingLine = pendingLine[:0]
 
 	for _, g := range lineSymbols {
 		isWhitespace := g.IsWhitespace()
@@ -78,7 +78,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			}
 
 			pendingLine = append(pendingLine, ww.pendingWord...)
-			clear(ww.pendingWord)
+			ww.pendingWord = ww.pendingWord[:0]
 
 			lineWidth += wordWidth
 
@@ -94,7 +94,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			remainingWidth := max(0, ww.maxLineWidth-lineWidth)
 
 			ww.wrappedLines.PushBack(slices.Clone(pendingLine))
-			clear(pendingLine)
+			pendingLine = pendingLine[:0]
 
 			lineWidth = 0
 
@@ -142,7 +142,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 	}
 
 	pendingLine = append(pendingLine, ww.pendingWord...)
-	clear(ww.pendingWord)
+	ww.pendingWord = ww.pendingWord[:0]
 
 	if len(pendingLine) > 0 {
 		ww.wrappedLines.PushBack(pendingLine)
-- 
2.43.0


From 07de76baf397cfc6493aa9fba45de28470baba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:03 +0000
Subject: [PATCH 24/56] fix: the word wrapper must count the width of the
 symbol it is about to add

---
 internal/reflow/wrapper.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index 2d771a6..9b656d0 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -88,7 +88,7 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 		}
 
 		lineFull := lineWidth >= ww.maxLineWidth
-		pendingWordOverflow := symbolWidth > 0 && lineWidth+whitespaceWidth+wordWidth >= ww.maxLineWidth
+		pendingWordOverflow := symbolWidth > 0 && lineWidth+whitespaceWidth+wordWidth+symbolWidth > ww.maxLineWidth
 
 		if lineFull || pendingWordOverflow {
 			remainingWidth := max(0, ww.maxLineWidth-lineWidth)
@@ -119,6 +119,13 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			if isWhitespace && ww.pendingWhitespace.IsEmpty() {
 				continue
 			}
+
+			// the pending word begins the next line, a wide symbol may not fit there either
+			if wordWidth > 0 && wordWidth+symbolWidth > ww.maxLineWidth {
+				ww.wrappedLines.PushBack(slices.Clone(ww.pendingWord))
+				ww.pendingWord = ww.pendingWord[:0]
+				wordWidth = 0
+			}
 		}
 
 		if isWhitespace {
-- 
2.43.0


From cbe273f1ac5a0a0ca55b29d6e204cc319d445772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:05 +0000
Subject: [PATCH 25/56] fix: trimmed wrapped lines must not begin with
 whitespace nor be made of it

---
 internal/reflow/wrapper.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/reflow/wrapper.go b/internal/reflow/wrapper.go
index 9b656d0..e57e891 100644
--- a/internal/reflow/wrapper.go
+++ b/internal/reflow/wrapper.go
@@ -128,6 +128,12 @@ func (ww *WordWrapper) processInput(lineSymbols []textwidget.StyledGrapheme) {
 			}
 		}
 
+		// when trimming, lines never begin with whitespace
+		if isWhitespace && ww.trim && len(pendingLine) == 0 {
+			nonWhitespacePrevious = false
+			continue
+		}
+
 		if isWhitespace {
 			whitespaceWidth += symbolWidth
 			ww.pendingWhitespace.PushBack(g)
-- 
2.43.0


From 7fb607919dbca22b01e187edfbaab912444650d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:07 +0000
Subject: [PATCH 26/56] fix: truncating the start of a span must not stop at a
 zero-width grapheme

---
 widget/textwidget/span.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/widget/textwidget/span.go b/widget/textwidget/span.go
index 7c6848f..0fd2cf8 100644
--- a/widget/textwidget/span.go
+++ b/widget/textwidget/span.go
@@ -180,9 +180,9 @@ func unicodeTruncateStart(s string, maxWidth int) (string, int) {
 	}
 
 	for {
-		_, rest, width, newState := uniseg.FirstGraphemeClusterInString(s, state)
+		cluster, rest, width, newState := uniseg.FirstGraphemeClusterInString(s, state)
 
-		if width == 0 {
+		if cluster == "" {
 			break
 		}
 
-- 
2.43.0


From 64485653828772ffdda9ba588573a65b93d6efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:09 +0000
Subject: [PATCH 27/56] fix: a leading zero-width grapheme of a span must not
 take over a cell

---
 widget/textwidget/span.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/widget/textwidget/span.go b/widget/textwidget/span.go
index 0fd2cf8..517658d 100644
--- a/widget/textwidget/span.go
+++ b/widget/textwidget/span.go
@@ -52,7 +52,7 @@ func (s Span) Render(area bento.Rect, buffer *bento.Buffer) {
 
 	x, y := area.X, area.Y
 
-	for i, gr := range s.StyledGraphemes(bento.NewStyle()) {
+	for _, gr := range s.StyledGraphemes(bento.NewStyle()) {
 		symbolWidth := gr.Width()
 
 		nextX := x + symbolWidth
@@ -61,18 +61,14 @@ func (s Span) Render(area bento.Rect, buffer *bento.Buffer) {
 		}
 
 		switch {
-		case i == 0:
-			// the first grapheme is always set on the cell
-			buffer.CellAt(bento.Position{X: x, Y: y}).SetSymbol(gr.String()).SetStyle(gr.Style)
-		case x == area.X:
-			// there is one or more zero-width graphemes in the first cell, so the first cell
-			// must be appended to.
-			buffer.CellAt(bento.Position{X: x, Y: y}).AppendSymbol(gr.String()).SetStyle(gr.Style)
+		case symbolWidth == 0 && x == area.X:
+			// there is no previous cell to append leading zero-width graphemes to
+			continue
 		case symbolWidth == 0:
 			// append zero-width graphemes to the previous cell
 			buffer.CellAt(bento.Position{X: x - 1, Y: y}).AppendSymbol(gr.String()).SetStyle(gr.Style)
 		default:
-			// just a normal grapheme (not first, not zero-width, not overflowing the area)
+			// just a normal grapheme (not zero-width, not overflowing the area)
 			buffer.CellAt(bento.Position{X: x, Y: y}).SetSymbol(gr.String()).SetStyle(gr.Style)
 		}
 
-- 
2.43.0


From 0e98978a08592d1062742672d5fb87eaad3cfe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 28/56] fix: deriving a line or text must not write into the
 one it derives from

---
 widget/textwidget/line.go | 4 ++--
 widget/textwidget/text.go | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index e926608..bb972ea 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -133,12 +133,12 @@ func (l Line) String() string {
 }
 
 func (l Line) WithSpans(spans ...Span) Line {
-	l.Spans = append(l.Spans, spans...)
+	l.Spans = slices.Concat(l.Spans, spans)
 	return l
 }
 
 func (l Line) WithSpansStr(spans ...string) Line {
-	l.Spans = slices.Grow(l.Spans, len(spans))
+	l.Spans = slices.Grow(slices.Clip(l.Spans), len(spans))
 
 	for _, s := range spans {
 		l.Spans = append(l.Spans, NewSpan(s))
diff --git a/widget/textwidget/text.go b/widget/textwidget/text.go
index ebd552b..647d685 100644
--- a/widget/textwidget/text.go
+++ b/widget/textwidget/text.go
@@ -1,6 +1,8 @@
 package textwidget
 
 import (
+	"slices"
+
 	"github.com/metafates/bento"
 )
 
@@ -27,12 +29,12 @@ func NewText(lines ...Line) Text {
 }
 
 func (t Text) WithLines(lines ...Line) Text {
-	t.Lines = append(t.Lines, lines...)
+	t.Lines = slices.Concat(t.Lines, lines)
 	return t
 }
 
 func (t Text) WithLinesStr(lines ...string) Text {
-	t.Lines = append(t.Lines, NewLinesStr(lines...)...)
+	t.Lines = slices.Concat(t.Lines, NewLinesStr(lines...))
 	return t
 }
 
-- 
2.43.0


From d54f7abdde27b2f21d4d920b92b403f09a5676be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:14 +0000
Subject: [PATCH 29/56] fix: the style of a line must be applied under its
 aligned text

---
 widget/textwidget/line.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index bb972ea..39417c6 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -232,8 +232,6 @@ func (l Line) renderWithAlignment(
 		Height:   1,
 	}
 
-	buffer.SetStyle(area.WithWidth(min(area.Width, lineWidth)), l.Style)
-
 	alignment := l.Alignment
 	if alignment == bento.AlignmentNone {
 		alignment = parentAlignment
@@ -257,6 +255,8 @@ func (l Line) renderWithAlignment(
 
 		area = area.IndentX(indentWidth)
 
+		buffer.SetStyle(area.WithWidth(lineWidth), l.Style)
+
 		renderSpans(l.Spans, area, buffer, 0)
 	} else {
 		// There is not enough space to render the whole line. As the right side is truncated by
@@ -272,6 +272,8 @@ func (l Line) renderWithAlignment(
 			skipWidth = max(0, lineWidth-areaWidth)
 		}
 
+		buffer.SetStyle(area, l.Style)
+
 		renderSpans(l.Spans, area, buffer, skipWidth)
 	}
 }
-- 
2.43.0


From 79a7b7f2cbd79c4b31ca95dde986f830233c76f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 30/56] fix: a line longer than 64 KiB must not be dropped

---
 widget/textwidget/line.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/widget/textwidget/line.go b/widget/textwidget/line.go
index 39417c6..b42fe68 100644
--- a/widget/textwidget/line.go
+++ b/widget/textwidget/line.go
@@ -1,7 +1,6 @@
 package textwidget
 
 import (
-	"bufio"
 	"slices"
 	"strings"
 
@@ -24,12 +23,8 @@ func NewLinesStr(s ...string) Lines {
 	if joined == "" {
 		lines = []Line{NewLineStr("")}
 	} else {
-		scanner := bufio.NewScanner(strings.NewReader(joined))
-
-		for scanner.Scan() {
-			line := NewLineStr(scanner.Text())
-
-			lines = append(lines, line)
+		for _, line := range splitLines(joined) {
+			lines = append(lines, NewLineStr(line))
 		}
 	}
 
@@ -98,6 +93,21 @@ type Line struct {
 	Alignment bento.Alignment
 }
 
+// splitLines splits s after each newline and strips the line terminators
+func splitLines(s string) []string {
+	if s == "" {
+		return nil
+	}
+
+	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
+
+	for i, line := range lines {
+		lines[i] = strings.TrimSuffix(line, "\r")
+	}
+
+	return lines
+}
+
 func NewLine(spans ...Span) Line {
 	return Line{
 		Style:     bento.NewStyle(),
@@ -107,13 +117,9 @@ func NewLine(spans ...Span) Line {
 }
 
 func NewLineStr(s string) Line {
-	lines := bufio.NewScanner(strings.NewReader(s))
-
 	var spans []Span
 
-	for lines.Scan() {
-		line := lines.Text()
-
+	for _, line := range splitLines(s) {
 		spans = append(spans, NewSpan(line))
 	}
 
-- 
2.43.0


From c7be276bae16547540ae9dd23a2eb0d72a025c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:17 +0000
Subject: [PATCH 31/56] fix: keep blocks within the buffer

---
 widget/blockwidget/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index 773d471..295e53b 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -165,7 +165,7 @@ func (b Block) hasTitleAtPosition(position TitlePosition) bool {
 }
 
 func (b Block) Render(area bento.Rect, buffer *bento.Buffer) {
-	area = area.Intersection(area)
+	area = area.Intersection(buffer.Area())
 	if area.IsEmpty() {
 		return
 	}
-- 
2.43.0


From 669abb3e64eee3ea2c490ba75787acd994b98737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 32/56] fix: do not share titles between blocks derived from
 one

---
 widget/blockwidget/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index 295e53b..7980179 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -72,7 +72,7 @@ func (b Block) WithTitle(title Title) Block {
 		title.Line = title.Line.WithAlignment(title.Alignment)
 	}
 
-	b.titles = append(b.titles, title)
+	b.titles = append(slices.Clip(b.titles), title)
 	return b
 }
 
-- 
2.43.0


From 0efdbe3c3c0e606a409b300200c8fe43e3d3db84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:21 +0000
Subject: [PATCH 33/56] fix: show block titles without an alignment on the left

---
 widget/blockwidget/block.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/widget/blockwidget/block.go b/widget/blockwidget/block.go
index 7980179..3468d0c 100644
--- a/widget/blockwidget/block.go
+++ b/widget/blockwidget/block.go
@@ -429,6 +429,10 @@ func (b Block) filterTitles(position TitlePosition, alignment bento.Alignment) [
 			titleAlignment = t.Alignment
 		}
 
+		if titleAlignment == bento.AlignmentNone {
+			titleAlignment = bento.AlignmentLeft
+		}
+
 		if titleAlignment != alignment {
 			continue
 		}
-- 
2.43.0


From 0257020e5378a62db58bd9d3fb84da9e19e5266a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:22 +0000
Subject: [PATCH 34/56] fix: reject gauge ratios outside of 0 to 1

---
 widget/gaugewidget/gauge.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/gaugewidget/gauge.go b/widget/gaugewidget/gauge.go
index 4916537..abd937a 100644
--- a/widget/gaugewidget/gauge.go
+++ b/widget/gaugewidget/gauge.go
@@ -41,7 +41,7 @@ func New() Gauge {
 //
 // See [Gauge.WithPercent] to set from a percentage.
 func (g Gauge) WithRatio(ratio float64) Gauge {
-	if ratio < 0 && ratio > 1 {
+	if !(ratio >= 0 && ratio <= 1) {
 		panic("ratio should be between 0 and 1 inclusively")
 	}
 
-- 
2.43.0


From 09891e7379f7d31614a4839a15a39f5abfe01973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 35/56] fix: show paragraphs without an alignment on the left

---
 widget/paragraphwidget/paragraph.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/widget/paragraphwidget/paragraph.go b/widget/paragraphwidget/paragraph.go
index 7427a82..c43369e 100644
--- a/widget/paragraphwidget/paragraph.go
+++ b/widget/paragraphwidget/paragraph.go
@@ -110,6 +110,10 @@ func (p Paragraph) render(textArea bento.Rect, buffer *bento.Buffer) {
 			alignment = p.Alignment
 		}
 
+		if alignment == bento.AlignmentNone {
+			alignment = bento.AlignmentLeft
+		}
+
 		styled = append(styled, reflow.InputLine{
 			Graphemes: graphemes,
 			Alignment: alignment,
-- 
2.43.0


From 765416134545aa715532a36d115efb96adcdac7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 36/56] fix: ignore foreign and outdated throbber ticks

---
 widget/throbberwidget/state.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/widget/throbberwidget/state.go b/widget/throbberwidget/state.go
index 6fb660d..134c322 100644
--- a/widget/throbberwidget/state.go
+++ b/widget/throbberwidget/state.go
@@ -37,11 +37,11 @@ func (s *State) TryUpdate(msg bento.Msg) (bento.Cmd, bool) {
 		return nil, false
 	}
 
-	if tickMsg.id > 0 && tickMsg.id != s.id {
+	if tickMsg.id != s.id {
 		return nil, false
 	}
 
-	if tickMsg.tag > 0 && tickMsg.tag != s.tag {
+	if tickMsg.tag != s.tag {
 		return nil, false
 	}
 
-- 
2.43.0


From 29f38e31f7f06132d86e1ae6bb70aec5cca3f80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:27 +0000
Subject: [PATCH 37/56] fix: keep all widgets within the buffer

---
 widget/clearwidget/clear.go         | 2 ++
 widget/fillwidget/fill.go           | 2 ++
 widget/gaugewidget/gauge.go         | 2 ++
 widget/inputwidget/input.go         | 2 ++
 widget/listwidget/list.go           | 2 ++
 widget/paragraphwidget/paragraph.go | 2 ++
 widget/popupwidget/popup.go         | 2 ++
 widget/scrollwidget/scroll.go       | 2 ++
 widget/tabswidget/tabs.go           | 2 ++
 widget/throbberwidget/throbber.go   | 2 ++
 10 files changed, 20 insertions(+)

diff --git a/widget/clearwidget/clear.go b/widget/clearwidget/clear.go
index aba3f79..ffee83b 100644
--- a/widget/clearwidget/clear.go
+++ b/widget/clearwidget/clear.go
@@ -13,6 +13,8 @@ func New() Clear {
 }
 
 func (Clear) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	for x := area.Left(); x < area.Right(); x++ {
 		for y := area.Top(); y < area.Bottom(); y++ {
 			buffer.CellAt(bento.NewPosition(x, y)).Reset()
diff --git a/widget/fillwidget/fill.go b/widget/fillwidget/fill.go
index 81a0bf3..0d2fbb6 100644
--- a/widget/fillwidget/fill.go
+++ b/widget/fillwidget/fill.go
@@ -22,6 +22,8 @@ func (f Fill) WithStyle(style bento.Style) Fill {
 }
 
 func (f Fill) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	for x := area.Left(); x < area.Right(); x++ {
 		for y := area.Top(); y < area.Bottom(); y++ {
 			pos := bento.NewPosition(x, y)
diff --git a/widget/gaugewidget/gauge.go b/widget/gaugewidget/gauge.go
index abd937a..5d0e065 100644
--- a/widget/gaugewidget/gauge.go
+++ b/widget/gaugewidget/gauge.go
@@ -103,6 +103,8 @@ func (g Gauge) WithUnicode(unicode bool) Gauge {
 }
 
 func (g Gauge) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	buffer.SetStyle(area, g.style)
 
 	if g.block != nil {
diff --git a/widget/inputwidget/input.go b/widget/inputwidget/input.go
index bf9410b..5c88a52 100644
--- a/widget/inputwidget/input.go
+++ b/widget/inputwidget/input.go
@@ -102,6 +102,8 @@ func (i Input) WithAlignment(alignment bento.Alignment) Input {
 }
 
 func (i Input) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *State) {
+	area = area.Intersection(buffer.Area())
+
 	buffer.SetStyle(area, i.style)
 
 	if i.block != nil {
diff --git a/widget/listwidget/list.go b/widget/listwidget/list.go
index cb53940..effb972 100644
--- a/widget/listwidget/list.go
+++ b/widget/listwidget/list.go
@@ -80,6 +80,8 @@ func (l List) WithScrollPadding(padding int) List {
 }
 
 func (l List) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *State) {
+	area = area.Intersection(buffer.Area())
+
 	buffer.SetStyle(area, l.style)
 
 	listArea := area
diff --git a/widget/paragraphwidget/paragraph.go b/widget/paragraphwidget/paragraph.go
index c43369e..016d1fd 100644
--- a/widget/paragraphwidget/paragraph.go
+++ b/widget/paragraphwidget/paragraph.go
@@ -83,6 +83,8 @@ func (p Paragraph) Wrapped() Paragraph {
 }
 
 func (p Paragraph) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	buffer.SetStyle(area, p.Style)
 
 	if p.Block != nil {
diff --git a/widget/popupwidget/popup.go b/widget/popupwidget/popup.go
index 5d6e1ed..d412f82 100644
--- a/widget/popupwidget/popup.go
+++ b/widget/popupwidget/popup.go
@@ -100,6 +100,8 @@ func (p Popup) Inner(area bento.Rect) bento.Rect {
 }
 
 func (p Popup) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	vertical := bento.NewLayout(p.Height).Vertical().WithPadding(p.Padding).WithFlex(p.Vertical)
 	horizontal := bento.NewLayout(p.Width).Horizontal().WithPadding(p.Padding).WithFlex(p.Horizontal)
 
diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index a521405..9231e2f 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -73,6 +73,8 @@ func (s Scroll) Inner(area bento.Rect) bento.Rect {
 }
 
 func (s Scroll) RenderStateful(area bento.Rect, buffer *bento.Buffer, state State) {
+	area = area.Intersection(buffer.Area())
+
 	if state.contentLen == 0 || s.trackLenExcludingArrowHeads(area) == 0 {
 		return
 	}
diff --git a/widget/tabswidget/tabs.go b/widget/tabswidget/tabs.go
index 4959a46..974c759 100644
--- a/widget/tabswidget/tabs.go
+++ b/widget/tabswidget/tabs.go
@@ -91,6 +91,8 @@ func (t Tabs) Unselect() Tabs {
 }
 
 func (t Tabs) Render(area bento.Rect, buffer *bento.Buffer) {
+	area = area.Intersection(buffer.Area())
+
 	buffer.SetStyle(area, t.style)
 
 	if t.block != nil {
diff --git a/widget/throbberwidget/throbber.go b/widget/throbberwidget/throbber.go
index 0d95d1d..432a8fd 100644
--- a/widget/throbberwidget/throbber.go
+++ b/widget/throbberwidget/throbber.go
@@ -31,6 +31,8 @@ func (t Throbber) WithType(type_ Type) Throbber {
 }
 
 func (t Throbber) RenderStateful(area bento.Rect, buffer *bento.Buffer, state State) {
+	area = area.Intersection(buffer.Area())
+
 	frame := t.set.Frame(state.frame)
 
 	width, height := frame.Dimensions()
-- 
2.43.0


From a2c6b78d85b24e4265b49bfe7d4406f9e660c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:24 +0000
Subject: [PATCH 38/56] fix: do not change copies of an input's state

---
 widget/inputwidget/state.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index beb4d38..48c2b61 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -6,7 +6,6 @@ import (
 	"github.com/metafates/bento"
 	"github.com/metafates/bento/internal/grapheme"
 	"github.com/metafates/bento/internal/sliceutil"
-	"github.com/rivo/uniseg"
 )
 
 var _ bento.TryUpdater = (*State)(nil)
@@ -57,12 +56,11 @@ func (s *State) MoveCursorEnd() {
 }
 
 func (s *State) Append(content string) {
-	graphemes := uniseg.NewGraphemes(content)
+	graphemes := grapheme.NewGraphemes(content)
 
-	for graphemes.Next() {
-		s.graphemes = slices.Insert(s.graphemes, s.cursor, grapheme.New(graphemes.Str()))
-		s.MoveCursorRight()
-	}
+	// clip, so that copies of the state are not affected
+	s.graphemes = slices.Insert(slices.Clip(s.graphemes), s.cursor, graphemes...)
+	s.setCursor(s.cursor + len(graphemes))
 }
 
 func (s *State) DeleteLine() {
@@ -108,7 +106,7 @@ func (s *State) deleteWhile(cond func(g grapheme.Grapheme) bool) {
 func (s *State) DeleteUnderCursor() {
 	before, _, after := s.splitAtCursor()
 
-	s.graphemes = append(before, after...)
+	s.graphemes = append(slices.Clip(before), after...)
 	s.MoveCursorLeft()
 }
 
-- 
2.43.0


From 5323a9718244f18dccf7fc05bc53df66ce0529a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:26 +0000
Subject: [PATCH 39/56] fix: leave no empty grapheme behind when deleting a
 word

---
 widget/inputwidget/state.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index 48c2b61..361e7d0 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -84,23 +84,14 @@ func (s *State) DeleteWordUnderCursor() {
 }
 
 func (s *State) deleteWhile(cond func(g grapheme.Grapheme) bool) {
-	before, under, after := s.splitAtCursor()
+	cursor := s.cursor
 
-	current := under
-
-	for cond(current) {
-		if len(before) == 0 {
-			current = grapheme.Grapheme{}
-			break
-		}
-		s.MoveCursorLeft()
-
-		current = before[len(before)-1]
-		before = before[:len(before)-1]
+	for cursor > 0 && cond(s.graphemes[cursor-1]) {
+		cursor--
 	}
 
-	s.graphemes = append(before, current)
-	s.graphemes = append(s.graphemes, after...)
+	s.graphemes = append(slices.Clip(s.graphemes[:cursor]), s.graphemes[s.cursor:]...)
+	s.setCursor(cursor)
 }
 
 func (s *State) DeleteUnderCursor() {
-- 
2.43.0


From 476faf1aa14f3999c9e8f42493718afebde08572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 40/56] fix: keep the cursor of an input in the visible part of
 the text

---
 widget/inputwidget/input.go |  6 ++--
 widget/inputwidget/state.go | 55 ++++++++++---------------------------
 2 files changed, 17 insertions(+), 44 deletions(-)

diff --git a/widget/inputwidget/input.go b/widget/inputwidget/input.go
index 5c88a52..6958311 100644
--- a/widget/inputwidget/input.go
+++ b/widget/inputwidget/input.go
@@ -129,7 +129,7 @@ func (i Input) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *Stat
 		offset:    state.offset,
 	}
 
-	before, cursor, after := i.split(tempState)
+	before, cursor, after := i.split(tempState, state.isEmpty())
 
 	if state.showCursor {
 		cursor = cursor.WithStylePatch(i.cursorStyle)
@@ -155,8 +155,8 @@ func (i Input) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *Stat
 	line.Render(area, buffer)
 }
 
-func (i Input) split(state State) (beforeSpan, cursorSpan, afterSpan textwidget.Span) {
-	if state.isEmpty() {
+func (i Input) split(state State, showPlaceholder bool) (beforeSpan, cursorSpan, afterSpan textwidget.Span) {
+	if showPlaceholder {
 		placeholder := i.placeholder
 		if len(placeholder) == 0 {
 			return textwidget.NewSpan(""), textwidget.NewSpan(""), textwidget.NewSpan("")
diff --git a/widget/inputwidget/state.go b/widget/inputwidget/state.go
index 361e7d0..063f24a 100644
--- a/widget/inputwidget/state.go
+++ b/widget/inputwidget/state.go
@@ -210,57 +210,30 @@ func (s *State) getBounds(maxWidth int) (int, int) {
 		return 0, 0
 	}
 
-	offset := min(s.offset, max(0, len(s.graphemes)-1))
+	// move no further than needed to show the cursor, and the grapheme before it
+	firstVisibleIndex := min(s.offset, max(0, s.cursor-1))
 
-	firstVisibleIndex := offset
-	lastVisibleIndex := offset
+	upToCursor := s.graphemes[firstVisibleIndex:min(s.cursor+1, len(s.graphemes))]
+	width := upToCursor.Width()
 
-	var widthFromOffset int
+	for firstVisibleIndex < s.cursor && width > maxWidth {
+		width -= s.graphemes[firstVisibleIndex].Width()
 
-	for _, g := range sliceutil.Skip(s.graphemes, offset) {
-		if widthFromOffset+g.Width() > maxWidth {
-			break
-		}
-
-		widthFromOffset += g.Width()
-
-		lastVisibleIndex++
-	}
-
-	indexToDisplay := offset
-	if s.cursor != 0 {
-		indexToDisplay = min(s.cursor-1, lastVisibleIndex)
-	}
-
-	for indexToDisplay >= lastVisibleIndex {
-		widthFromOffset += s.graphemes[lastVisibleIndex].Width()
-
-		lastVisibleIndex++
-
-		for widthFromOffset > maxWidth {
-			widthFromOffset = max(0, widthFromOffset-s.graphemes[firstVisibleIndex].Width())
-
-			firstVisibleIndex++
-		}
+		firstVisibleIndex++
 	}
 
-	for indexToDisplay < firstVisibleIndex {
-		firstVisibleIndex--
+	lastVisibleIndex := firstVisibleIndex
 
-		widthFromOffset += s.graphemes[firstVisibleIndex].Width()
+	var visibleWidth int
 
-		for widthFromOffset > maxWidth {
-			lastVisibleIndex--
-
-			widthFromOffset = max(0, widthFromOffset-s.graphemes[lastVisibleIndex].Width())
+	for _, g := range sliceutil.Skip(s.graphemes, firstVisibleIndex) {
+		if visibleWidth+g.Width() > maxWidth {
+			break
 		}
-	}
 
-	if s.cursor-firstVisibleIndex >= lastVisibleIndex {
-		diff := s.cursor - lastVisibleIndex
+		visibleWidth += g.Width()
 
-		firstVisibleIndex += diff
-		lastVisibleIndex += diff
+		lastVisibleIndex++
 	}
 
 	return firstVisibleIndex, lastVisibleIndex
-- 
2.43.0


From f69235b5cd76c6dcb9aa9e3fb16b700d58fb6028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 41/56] fix: draw horizontal scrollbars on the side they are
 named after

---
 widget/scrollwidget/scroll.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index 9231e2f..fe43513 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -267,7 +267,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 			return bento.Rect{}, false
 		}
 
-		return rows[0], true
+		return rows[len(rows)-1], true
 
 	case OrientationHorizontalTop:
 		rows := area.Rows()
@@ -275,7 +275,7 @@ func (s Scroll) scrollbarArea(area bento.Rect) (bento.Rect, bool) {
 			return bento.Rect{}, false
 		}
 
-		return rows[len(rows)-1], true
+		return rows[0], true
 
 	default:
 		return bento.Rect{}, false
-- 
2.43.0


From 0542cfc46582c4aac64d3136223bbeaa1247ecb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 42/56] fix: give empty scrollbar ends no cell

---
 widget/scrollwidget/scroll.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index fe43513..45fbea4 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -114,7 +114,7 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 
 	var begin *_Symbol
 
-	if s.beginSymbol != nil {
+	if s.beginSymbol != nil && *s.beginSymbol != "" {
 		begin = &_Symbol{
 			Symbol: *s.beginSymbol,
 			Style:  s.beginStyle,
@@ -137,7 +137,7 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 
 	var end *_Symbol
 
-	if s.endSymbol != nil {
+	if s.endSymbol != nil && *s.endSymbol != "" {
 		end = &_Symbol{
 			Symbol: *s.endSymbol,
 			Style:  s.endStyle,
@@ -145,7 +145,11 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 	}
 
 	// <
-	symbols := []*_Symbol{begin}
+	var symbols []*_Symbol
+
+	if begin != nil {
+		symbols = append(symbols, begin)
+	}
 
 	// <═══
 	symbols = append(symbols, sliceutil.Repeat(track, trackStartLen)...)
@@ -157,7 +161,9 @@ func (s Scroll) barSymbols(area bento.Rect, state State) []*_Symbol {
 	symbols = append(symbols, sliceutil.Repeat(track, trackEndLen)...)
 
 	// <═══█████═══════>
-	symbols = append(symbols, end)
+	if end != nil {
+		symbols = append(symbols, end)
+	}
 
 	return symbols
 }
-- 
2.43.0


From 5df284b80bbd7f20c4a97c5c5b00d94bbe11ba4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:56 +0000
Subject: [PATCH 43/56] fix: keep the scroll position within the content

---
 widget/scrollwidget/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/scrollwidget/state.go b/widget/scrollwidget/state.go
index b48c7ae..9e9b996 100644
--- a/widget/scrollwidget/state.go
+++ b/widget/scrollwidget/state.go
@@ -38,7 +38,7 @@ func NewState(contentLen int) State {
 }
 
 func (s *State) SetPosition(position int) *State {
-	s.position = position
+	s.position = max(0, min(position, s.contentLen-1))
 	return s
 }
 
-- 
2.43.0


From 16495cbffd48bfde8feab2392ad2e0dfc3de3b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 44/56] fix: the scroll ratio of no content is 0

---
 widget/scrollwidget/state.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/widget/scrollwidget/state.go b/widget/scrollwidget/state.go
index 9e9b996..640ec59 100644
--- a/widget/scrollwidget/state.go
+++ b/widget/scrollwidget/state.go
@@ -75,6 +75,10 @@ func (s *State) Scroll(direction Direction) {
 }
 
 func (s *State) Ratio() float64 {
+	if s.contentLen == 0 {
+		return 0
+	}
+
 	return float64(s.position) / float64(s.contentLen)
 }
 
-- 
2.43.0


From 41080e13de77438398dd62c328d4d0b167484088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 45/56] fix: moving the selection of a list past the largest
 index keeps it there

---
 widget/listwidget/state.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/widget/listwidget/state.go b/widget/listwidget/state.go
index 4e8464c..9c8f17e 100644
--- a/widget/listwidget/state.go
+++ b/widget/listwidget/state.go
@@ -77,7 +77,7 @@ func (s *State) SelectNext() {
 	var next int
 
 	if s.selected != nil {
-		next = *s.selected + 1
+		next = saturatingAdd(*s.selected, 1)
 	}
 
 	s.Select(next)
@@ -108,7 +108,7 @@ func (s *State) ScrollDownBy(amount int) {
 		selected = *s.selected
 	}
 
-	s.Select(selected + amount)
+	s.Select(saturatingAdd(selected, amount))
 }
 
 func (s *State) ScrollUpBy(amount int) {
@@ -118,7 +118,7 @@ func (s *State) ScrollUpBy(amount int) {
 		selected = *s.selected
 	}
 
-	s.Select(selected - amount)
+	s.Select(saturatingAdd(selected, -amount))
 }
 
 func (s *State) Unselect() {
@@ -138,3 +138,12 @@ func (s *State) Selected(max_ int) (index int, ok bool) {
 
 	return min(max_, max(0, *s.selected)), true
 }
+
+// saturatingAdd adds amount to a non-negative index, stopping at [math.MaxInt] instead of overflowing.
+func saturatingAdd(index, amount int) int {
+	if amount > math.MaxInt-index {
+		return math.MaxInt
+	}
+
+	return index + amount
+}
-- 
2.43.0


From bdf8b4d63058d4d471b60faa8b345d86710d18f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:02 +0000
Subject: [PATCH 46/56] fix: a negative list offset is 0

---
 widget/listwidget/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/widget/listwidget/state.go b/widget/listwidget/state.go
index 9c8f17e..2a45d88 100644
--- a/widget/listwidget/state.go
+++ b/widget/listwidget/state.go
@@ -65,7 +65,7 @@ func (s *State) update(key bento.Key) bool {
 }
 
 func (s *State) SetOffset(offset int) {
-	s.offset = offset
+	s.offset = max(0, offset)
 }
 
 func (s *State) Select(index int) {
-- 
2.43.0


From 693a4eb4fe7570f290b946e124652e5c03008138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:05 +0000
Subject: [PATCH 47/56] fix: rendering an empty list clears the selection

---
 widget/listwidget/list.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/widget/listwidget/list.go b/widget/listwidget/list.go
index effb972..f4bd7e2 100644
--- a/widget/listwidget/list.go
+++ b/widget/listwidget/list.go
@@ -90,7 +90,13 @@ func (l List) RenderStateful(area bento.Rect, buffer *bento.Buffer, state *State
 		listArea = l.block.Inner(area)
 	}
 
-	if listArea.IsEmpty() || len(l.items) == 0 {
+	if listArea.IsEmpty() {
+		return
+	}
+
+	if len(l.items) == 0 {
+		state.Unselect()
+
 		return
 	}
 
-- 
2.43.0


From 3e4ba1081bd5a83d0f51936454ec759dfa114df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:07 +0000
Subject: [PATCH 48/56] fix: show as many list items as fit after scrolling
 down

---
 widget/listwidget/list.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/widget/listwidget/list.go b/widget/listwidget/list.go
index f4bd7e2..c41a26b 100644
--- a/widget/listwidget/list.go
+++ b/widget/listwidget/list.go
@@ -297,6 +297,13 @@ func (l List) getItemsBounds(selected *int, offset, maxHeight int) (int, int) {
 		}
 	}
 
+	// Hiding items may have freed more space than the displayed ones took
+	for lastVisibleIndex < len(l.items) && heightFromOffset+l.items[lastVisibleIndex].Height() <= maxHeight {
+		heightFromOffset += l.items[lastVisibleIndex].Height()
+
+		lastVisibleIndex++
+	}
+
 	return firstVisibleIndex, lastVisibleIndex
 }
 
-- 
2.43.0


From 69ea587141ef4a9afd48dc0f81c8ecffaae24fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 49/56] fix: a negative vertical scroll of a paragraph is 0

---
 widget/paragraphwidget/paragraph.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/widget/paragraphwidget/paragraph.go b/widget/paragraphwidget/paragraph.go
index 016d1fd..2e2d123 100644
--- a/widget/paragraphwidget/paragraph.go
+++ b/widget/paragraphwidget/paragraph.go
@@ -139,13 +139,15 @@ func (p Paragraph) render(textArea bento.Rect, buffer *bento.Buffer) {
 func (p Paragraph) renderText(composer reflow.LineComposer, area bento.Rect, buffer *bento.Buffer) {
 	var y int
 
+	scroll := max(0, p.Scroll.Y)
+
 	for {
 		currentLine, ok := composer.NextLine()
 		if !ok {
 			break
 		}
 
-		if y >= p.Scroll.Y {
+		if y >= scroll {
 			x := getLineOffset(currentLine.Width, area.Width, currentLine.Alignment)
 
 			for _, grapheme := range currentLine.Line {
@@ -163,7 +165,7 @@ func (p Paragraph) renderText(composer reflow.LineComposer, area bento.Rect, buf
 				buffer.
 					CellAt(bento.Position{
 						X: area.Left() + x,
-						Y: area.Top() + y - p.Scroll.Y,
+						Y: area.Top() + y - scroll,
 					}).
 					SetSymbol(symbol).
 					SetStyle(grapheme.Style)
@@ -174,7 +176,7 @@ func (p Paragraph) renderText(composer reflow.LineComposer, area bento.Rect, buf
 
 		y++
 
-		if y >= area.Height+p.Scroll.Y {
+		if y-scroll >= area.Height {
 			break
 		}
 	}
-- 
2.43.0


From 60535693c121b03c811a060253b93f8a70e3d990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 50/56] fix: a throbber without frames shows nothing

---
 widget/throbberwidget/set.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/widget/throbberwidget/set.go b/widget/throbberwidget/set.go
index 5010919..c03b199 100644
--- a/widget/throbberwidget/set.go
+++ b/widget/throbberwidget/set.go
@@ -85,6 +85,10 @@ func (f Frame) Dimensions() (width, height int) {
 }
 
 func (s Set) Frame(frame int) Frame {
+	if len(s) == 0 {
+		return ""
+	}
+
 	return s[frame%len(s)]
 }
 
-- 
2.43.0


From ec2f831f5709822d10ada994a75b7d6f1142afd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:51 +0000
Subject: [PATCH 51/56] fix: list scroll padding beyond the list or below 0

---
 widget/listwidget/list.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/widget/listwidget/list.go b/widget/listwidget/list.go
index c41a26b..80ea0f9 100644
--- a/widget/listwidget/list.go
+++ b/widget/listwidget/list.go
@@ -320,7 +320,8 @@ func (l List) applyScrollPaddingToSelectedIndex(selected int, maxHeight, firstVi
 	// where the offset would have excluded some items that we want to include, or could
 	// cause the offset value to be set to an inconsistent value each time we render.
 	// The padding value will be reduced in case any of these issues would occur
-	scrollPadding := l.scrollPadding
+	// Padding beyond the length of the list means nothing.
+	scrollPadding := max(0, min(l.scrollPadding, len(l.items)))
 
 	for scrollPadding > 0 {
 		var heightAroundSelected int
-- 
2.43.0


From 88e9341db78869a07a467196ce833143fb1b239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:28 +0000
Subject: [PATCH 52/56] fix: a failing size query after a resize must end the
 application with its error

---
 tty.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tty.go b/tty.go
index 81718b0..125e3ba 100644
--- a/tty.go
+++ b/tty.go
@@ -93,10 +93,6 @@ func (a *appRunner) waitForReadLoop() {
 // via a WindowSizeMsg.
 func (a *appRunner) checkResize() {
 	size, ok, err := a.terminal.Size()
-	if !ok {
-		return
-	}
-
 	if err != nil {
 		select {
 		case <-a.ctx.Done():
@@ -106,5 +102,9 @@ func (a *appRunner) checkResize() {
 		return
 	}
 
+	if !ok {
+		return
+	}
+
 	a.Send(WindowSizeMsg(size))
 }
-- 
2.43.0


From 98a3a9cb68d6b9ffb3451d3b731fe228b5d66aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:39 +0000
Subject: [PATCH 53/56] fix: appending spans to a text must not change copies
 of it

---
 widget/textwidget/text.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/widget/textwidget/text.go b/widget/textwidget/text.go
index 647d685..8f43d55 100644
--- a/widget/textwidget/text.go
+++ b/widget/textwidget/text.go
@@ -89,10 +89,13 @@ func (t Text) String() string {
 }
 
 func AppendTextSpans(text *Text, spans ...Span) {
+	// copies of the text may share its lines
+	text.Lines = slices.Clone(text.Lines)
+
 	if len(text.Lines) > 0 {
 		last := len(text.Lines) - 1
-		text.Lines[last].Spans = append(text.Lines[last].Spans, spans...)
+		text.Lines[last] = text.Lines[last].WithSpans(spans...)
 	} else {
-		text.Lines = append(text.Lines, NewLine(spans...))
+		text.Lines = Lines{NewLine(spans...)}
 	}
 }
-- 
2.43.0


From b8e85cccfc29eb83ee3016b02b1532d3db4e16f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 54/56] fix: keep the thumb of a scrollbar of vast contents
 where it belongs

---
 widget/scrollwidget/scroll.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/widget/scrollwidget/scroll.go b/widget/scrollwidget/scroll.go
index 45fbea4..a0e8201 100644
--- a/widget/scrollwidget/scroll.go
+++ b/widget/scrollwidget/scroll.go
@@ -217,13 +217,14 @@ func (s Scroll) partLens(
 	// of the viewport, the thumb should be at the bottom of the track.
 	maxPosition := max(0, state.contentLen-1)
 	startPosition := max(0, min(maxPosition, state.position))
-	maxViewportPosition := maxPosition + viewportLen
-	endPosition := startPosition + viewportLen
+	// These are floats since the sums and products may not fit an integer.
+	maxViewportPosition := float64(maxPosition) + float64(viewportLen)
+	endPosition := float64(startPosition) + float64(viewportLen)
 
 	// Calculate the start and end positions of the thumb. The size will be proportional to the
 	// viewport length compared to the total amount of possible visible rows.
-	thumbStartF := float64(startPosition*trackLen) / float64(maxViewportPosition)
-	thumbEndF := float64(endPosition*trackLen) / float64(maxViewportPosition)
+	thumbStartF := float64(startPosition) * float64(trackLen) / maxViewportPosition
+	thumbEndF := endPosition * float64(trackLen) / maxViewportPosition
 
 	// Make sure that the thumb is at least 1 cell long by ensuring that the start of the thumb
 	// is less than the track_len. We use the positions instead of the sizes and use nearest
-- 
2.43.0


From dca409ed5dfe708bd90148456eabe3880d191176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:39 +0000
Subject: [PATCH 55/56] fix: begin every frame blank, also after a widget
 panicked

---
 terminal.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/terminal.go b/terminal.go
index 65ae7e2..85374b1 100644
--- a/terminal.go
+++ b/terminal.go
@@ -118,6 +118,9 @@ func (t *Terminal) DisableRawMode() error {
 }
 
 func (t *Terminal) Draw(widget Widget) (CompletedFrame, error) {
+	// a widget that panicked may have left a part of its frame behind
+	t.CurrentBuffer().Reset()
+
 	frame := t.GetFrame()
 
 	frame.RenderWidget(widget, frame.Area())
-- 
2.43.0


From 445b096f097d75ae48b77bfbf35e47bfdd840c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:43 +0000
Subject: [PATCH 56/56] fix: let an application be run again

---
 app.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/app.go b/app.go
index ff54c5c..013e688 100644
--- a/app.go
+++ b/app.go
@@ -129,10 +129,13 @@ func (a App) Run() (Model, error) {
 		return nil, fmt.Errorf("new terminal: %w", err)
 	}
 
+	// stopping this run must not stop the next one
+	ctx, cancelCtx := context.WithCancel(a.ctx)
+
 	runner := appRunner{
 		model:     a.model,
-		ctx:       a.ctx,
-		cancelCtx: a.cancelCtx,
+		ctx:       ctx,
+		cancelCtx: cancelCtx,
 
 		readLoopDone: make(chan struct{}),
 		handlers:     channelHandlers{},
-- 
2.43.0

