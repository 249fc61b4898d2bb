From 7b11af72db8d3450df5ab0716616c33c4125ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:56 +0000
Subject: [PATCH 01/20] fix: do not use metric names as a format string in
 /health responses

---
 json_polling_sink_http.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_polling_sink_http.go b/json_polling_sink_http.go
index 7bd4a0c..40dac13 100644
--- a/json_polling_sink_http.go
+++ b/json_polling_sink_http.go
@@ -31,7 +31,7 @@ func (s *JsonPollingSink) ServeHTTP(rw http.ResponseWriter, r *http.Request) {
 			renderError(rw, err)
 			return
 		}
-		fmt.Fprintf(rw, string(jsonData))
+		rw.Write(jsonData)
 	} else {
 		renderNotFound(rw)
 	}
-- 
2.43.0


From 0bfa494c737c5090b8543243637b1612d37a333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:56 +0000
Subject: [PATCH 02/20] fix: polling sink panicked when retain is shorter than
 the interval

---
 aggregator.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aggregator.go b/aggregator.go
index 951aacc..7099be9 100644
--- a/aggregator.go
+++ b/aggregator.go
@@ -55,6 +55,10 @@ AGGREGATE_LOOP:
 
 func newAggregator(intervalDuration time.Duration, retain time.Duration) *aggregator {
 	maxIntervals := int(retain / intervalDuration)
+	if maxIntervals < 1 {
+		// we always need room for the current interval
+		maxIntervals = 1
+	}
 	return &aggregator{
 		intervalDuration:     intervalDuration,
 		retain:               retain,
-- 
2.43.0


From c75d72479146b6ba062be4c047c43f3bc4d61e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:03 +0000
Subject: [PATCH 03/20] fix: StatsD Drain and Stop could hang or return early
 when called concurrently

---
 statsd_sink.go | 73 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 60 insertions(+), 13 deletions(-)

diff --git a/statsd_sink.go b/statsd_sink.go
index a0b8868..3185818 100644
--- a/statsd_sink.go
+++ b/statsd_sink.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"net"
 	"strconv"
+	"sync"
 	"time"
 )
 
@@ -44,9 +45,10 @@ var defaultStatsDOptions = StatsDSinkOptions{SanitizationFunc: sanitizeKey}
 type StatsDSink struct {
 	options StatsDSinkOptions
 
-	cmdChan       chan statsdEmitCmd
-	drainDoneChan chan struct{}
-	stopDoneChan  chan struct{}
+	cmdChan chan statsdEmitCmd
+
+	stopMutex    sync.Mutex
+	stopDoneChan chan struct{} // closed when the loop has stopped. Guarded by stopMutex.
 
 	flushPeriod time.Duration
 
@@ -82,6 +84,7 @@ type statsdEmitCmd struct {
 	Nanos  int64
 	Value  float64
 	Status CompletionStatus
+	Done   chan struct{} // for drains: closed when everything before it is flushed
 }
 
 const cmdChanBuffSize = 8192 // random-ass-guess
@@ -102,7 +105,6 @@ func NewStatsDSink(addr string, options *StatsDSinkOptions) (*StatsDSink, error)
 		udpConn:       c.(*net.UDPConn),
 		udpAddr:       ra,
 		cmdChan:       make(chan statsdEmitCmd, cmdChanBuffSize),
-		drainDoneChan: make(chan struct{}),
 		stopDoneChan:  make(chan struct{}),
 		flushPeriod:   100 * time.Millisecond,
 		prefixBuffers: make(map[eventKey]prefixBuffer),
@@ -123,13 +125,33 @@ func NewStatsDSink(addr string, options *StatsDSinkOptions) (*StatsDSink, error)
 }
 
 func (s *StatsDSink) Stop() {
-	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindStop}
-	<-s.stopDoneChan
+	stopDone := s.stopDone()
+	select {
+	case s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindStop}:
+		<-stopDone
+	case <-stopDone:
+		// somebody else stopped the sink
+	}
 }
 
 func (s *StatsDSink) Drain() {
-	s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindDrain}
-	<-s.drainDoneChan
+	stopDone := s.stopDone()
+	done := make(chan struct{})
+	select {
+	case s.cmdChan <- statsdEmitCmd{Kind: statsdCmdKindDrain, Done: done}:
+	case <-stopDone:
+		return
+	}
+	select {
+	case <-done:
+	case <-stopDone:
+	}
+}
+
+func (s *StatsDSink) stopDone() chan struct{} {
+	s.stopMutex.Lock()
+	defer s.stopMutex.Unlock()
+	return s.stopDoneChan
 }
 
 func (s *StatsDSink) EmitEvent(job string, event string, kvs map[string]string) {
@@ -155,6 +177,16 @@ func (s *StatsDSink) EmitComplete(job string, status CompletionStatus, nanos int
 func (s *StatsDSink) loop() {
 	cmdChan := s.cmdChan
 
+	s.stopMutex.Lock()
+	select {
+	case <-s.stopDoneChan:
+		// we're being started again
+		s.stopDoneChan = make(chan struct{})
+	default:
+	}
+	stopDone := s.stopDoneChan
+	s.stopMutex.Unlock()
+
 	ticker := time.NewTicker(s.flushPeriod)
 	go func() {
 		for _ = range ticker.C {
@@ -166,19 +198,33 @@ LOOP:
 	for cmd := range cmdChan {
 		switch cmd.Kind {
 		case statsdCmdKindDrain:
+			// Several goroutines can drain (and stop) at the same time: each of them waits for its answer.
+			drains := []chan struct{}{cmd.Done}
+			stop := false
 		DRAIN_LOOP:
-			for {
+			for !stop {
 				select {
 				case cmd := <-cmdChan:
-					s.processCmd(&cmd)
+					switch cmd.Kind {
+					case statsdCmdKindDrain:
+						drains = append(drains, cmd.Done)
+					case statsdCmdKindStop:
+						stop = true
+					default:
+						s.processCmd(&cmd)
+					}
 				default:
-					s.flush()
-					s.drainDoneChan <- struct{}{}
 					break DRAIN_LOOP
 				}
 			}
+			s.flush()
+			for _, done := range drains {
+				close(done)
+			}
+			if stop {
+				break LOOP
+			}
 		case statsdCmdKindStop:
-			s.stopDoneChan <- struct{}{}
 			break LOOP
 		case statsdCmdKindFlush:
 			s.flush()
@@ -188,6 +234,7 @@ LOOP:
 	}
 
 	ticker.Stop()
+	close(stopDone)
 }
 
 func (s *StatsDSink) processCmd(cmd *statsdEmitCmd) {
-- 
2.43.0


From e2fe9c3948e6821ff0f0ae881c21ab5f3c9d3f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:07 +0000
Subject: [PATCH 04/20] fix: merging timers without samples spoiled minimum and
 maximum

---
 interval_aggregation_merge.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/interval_aggregation_merge.go b/interval_aggregation_merge.go
index eaa776e..a0d7257 100644
--- a/interval_aggregation_merge.go
+++ b/interval_aggregation_merge.go
@@ -27,6 +27,14 @@ func (intoJob *JobAggregation) merge(fromJob *JobAggregation) {
 }
 
 func (intoTa *TimerAggregation) merge(fromTa *TimerAggregation) {
+	if fromTa.Count == 0 {
+		// Nothing was timed, so its min and max mean nothing.
+		return
+	}
+	if intoTa.Count == 0 {
+		*intoTa = *fromTa
+		return
+	}
 	intoTa.Count += fromTa.Count
 	intoTa.NanosSum += fromTa.NanosSum
 	intoTa.NanosSumSquares += fromTa.NanosSumSquares
-- 
2.43.0


From f3e99495be7ec54f5285aa346fd9e4ec908e7f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:48 +0000
Subject: [PATCH 05/20] fix: close the HTTP responses of the Bugsnag and
 Librato sinks

---
 sinks/bugsnag/api.go  | 1 +
 sinks/librato/sink.go | 7 +++++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sinks/bugsnag/api.go b/sinks/bugsnag/api.go
index f5d6539..49cfe7c 100644
--- a/sinks/bugsnag/api.go
+++ b/sinks/bugsnag/api.go
@@ -112,6 +112,7 @@ func Notify(config *Config, jobName string, eventName string, err error, trace *
 	if err != nil {
 		return err
 	}
+	defer resp.Body.Close()
 	body, err := ioutil.ReadAll(resp.Body)
 	if err != nil {
 		return err
diff --git a/sinks/librato/sink.go b/sinks/librato/sink.go
index a015cd2..63cb60f 100644
--- a/sinks/librato/sink.go
+++ b/sinks/librato/sink.go
@@ -303,11 +303,14 @@ func (s *Sink) send() error {
 	}
 	req.Header.Add("Content-Type", "application/json")
 	req.SetBasicAuth(s.libratoUser, s.libratoApiKey)
-	_, err = s.httpClient.Do(req)
+	resp, err := s.httpClient.Do(req)
+	if err != nil {
+		return err
+	}
 
 	//fmt.Println(resp.Status)
 
-	return err
+	return resp.Body.Close()
 }
 
 // valid librato charactors: A-Za-z0-9.:-_
-- 
2.43.0


From 5e0e003dab7caf979f8fe45b162d5ff3dc2b3bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:48 +0000
Subject: [PATCH 06/20] fix: Bugsnag sink used the caller's key-value map after
 the call returned

---
 sinks/bugsnag/sink.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sinks/bugsnag/sink.go b/sinks/bugsnag/sink.go
index 16a2c9f..9435e52 100644
--- a/sinks/bugsnag/sink.go
+++ b/sinks/bugsnag/sink.go
@@ -46,7 +46,15 @@ func (s *Sink) EmitEventErr(job string, event string, inputErr error, kvs map[st
 	switch inputErr := inputErr.(type) {
 	case *health.UnmutedError:
 		if !inputErr.Emitted {
-			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: kvs}
+			// The error is sent later, when the caller may be changing the map again.
+			var kvsCopy map[string]string
+			if kvs != nil {
+				kvsCopy = make(map[string]string, len(kvs))
+				for k, v := range kvs {
+					kvsCopy[k] = v
+				}
+			}
+			s.cmdChan <- &cmdEventErr{Job: job, Event: event, Err: inputErr, Kvs: kvsCopy}
 		}
 	case *health.MutedError:
 	// Do nothing!
-- 
2.43.0


From c0158e6939af6456f70ededf6b7a956868ca639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:48 +0000
Subject: [PATCH 07/20] fix: data race when several goroutines read the frames
 of one stack trace

---
 stack/stack.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stack/stack.go b/stack/stack.go
index 5c7dc61..ae20f3f 100644
--- a/stack/stack.go
+++ b/stack/stack.go
@@ -3,14 +3,16 @@ package stack
 import (
 	"bytes"
 	"runtime"
+	"sync"
 )
 
 // MaxStackDepth is the maximum number of stackframes on any error.
 var MaxStackDepth = 50
 
 type Trace struct {
-	stack  []uintptr
-	frames []Frame
+	stack      []uintptr
+	framesOnce sync.Once
+	frames     []Frame
 }
 
 func NewTrace(skip int) *Trace {
@@ -23,13 +25,13 @@ func NewTrace(skip int) *Trace {
 
 // StackFrames returns an array of frames containing information about the stack.
 func (t *Trace) Frames() []Frame {
-	if t.frames == nil {
+	t.framesOnce.Do(func() {
 		t.frames = make([]Frame, len(t.stack))
 
 		for i, pc := range t.stack {
 			t.frames[i] = NewFrame(pc)
 		}
-	}
+	})
 
 	return t.frames
 }
-- 
2.43.0


From a0970bb2df062cc59ea99655793327bcbb7a3e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:48 +0000
Subject: [PATCH 08/20] fix: data race between reporting an error and comparing
 error samples

---
 interval_aggregation.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/interval_aggregation.go b/interval_aggregation.go
index 6c2b37c..9bff678 100644
--- a/interval_aggregation.go
+++ b/interval_aggregation.go
@@ -100,13 +100,24 @@ func (ec *ErrorCounter) addError(inputErr error) {
 	lastErr := ec.errorSamples[ec.errorSampleIndex]
 	if lastErr == nil {
 		ec.errorSamples[ec.errorSampleIndex] = inputErr
-	} else if !reflect.DeepEqual(lastErr, inputErr) {
+	} else if !sameError(lastErr, inputErr) {
 		n := len(ec.errorSamples)
 		ec.errorSampleIndex = (ec.errorSampleIndex + 1) % n
 		ec.errorSamples[ec.errorSampleIndex] = inputErr
 	}
 }
 
+// sameError tells whether two errors are equal. Of an UnmutedError only the wrapped error is looked at: the goroutine
+// that reported it may be setting Emitted or reading (and filling in) the stack frames at the same time.
+func sameError(a, b error) bool {
+	if ua, ok := a.(*UnmutedError); ok {
+		if ub, ok := b.(*UnmutedError); ok {
+			return ua == ub || reflect.DeepEqual(ua.Err, ub.Err)
+		}
+	}
+	return reflect.DeepEqual(a, b)
+}
+
 func (ec *ErrorCounter) getErrorSamples() []error {
 	// Count how many non-nil errors are there so we can make a slice of the right size
 	count := 0
-- 
2.43.0


From f81dcbb13190681dcbcc3a9266c622d29113ea7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:48 +0000
Subject: [PATCH 09/20] fix: Bugsnag sink crashed the process on an unmuted
 error without a stack trace

---
 sinks/bugsnag/api.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sinks/bugsnag/api.go b/sinks/bugsnag/api.go
index 49cfe7c..d95a3fb 100644
--- a/sinks/bugsnag/api.go
+++ b/sinks/bugsnag/api.go
@@ -129,14 +129,16 @@ func newPayload(config *Config, jobName string, eventName string, err error, tra
 		ErrorClass: eventName,
 		Message:    err.Error(),
 	}
-	for _, frame := range trace.Frames() {
-		pf := payloadFrame{
-			File:       frame.File,
-			LineNumber: frame.LineNumber,
-			Method:     frame.Package + ":" + frame.Name,
-			InProject:  !frame.IsSystemPackage,
+	if trace != nil {
+		for _, frame := range trace.Frames() {
+			pf := payloadFrame{
+				File:       frame.File,
+				LineNumber: frame.LineNumber,
+				Method:     frame.Package + ":" + frame.Name,
+				InProject:  !frame.IsSystemPackage,
+			}
+			except.Stacktrace = append(except.Stacktrace, pf)
 		}
-		except.Stacktrace = append(except.Stacktrace, pf)
 	}
 
 	evt := payloadEvent{
-- 
2.43.0


From a47ef2f9235b84b1c78975c016ff12705393b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:22 +0000
Subject: [PATCH 10/20] fix: stack frames named the wrong function and line for
 inlined calls

---
 stack/frame.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/stack/frame.go b/stack/frame.go
index a8b042c..6d88911 100644
--- a/stack/frame.go
+++ b/stack/frame.go
@@ -24,11 +24,12 @@ func NewFrame(pc uintptr) Frame {
 	if frame.Func() == nil {
 		return frame
 	}
-	frame.Package, frame.Name = packageAndName(frame.Func())
 
-	// pc -1 because the program counters we use are usually return addresses,
-	// and we want to show the line that corresponds to the function call
-	frame.File, frame.LineNumber = frame.Func().FileLine(pc - 1)
+	// The program counters we use are usually return addresses, and we want to show the function and line that
+	// correspond to the function call, also if the compiler inlined it. CallersFrames takes care of both.
+	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
+	frame.Package, frame.Name = packageAndName(f.Function)
+	frame.File, frame.LineNumber = f.File, f.Line
 	frame.IsSystemPackage = isSystemPackage(frame.File, frame.Package)
 
 	return frame
@@ -46,8 +47,7 @@ func (frame *Frame) String() string {
 	return fmt.Sprintf("%s:%d %s", frame.File, frame.LineNumber, frame.Name)
 }
 
-func packageAndName(fn *runtime.Func) (string, string) {
-	name := fn.Name()
+func packageAndName(name string) (string, string) {
 	pkg := ""
 
 	// we first remove the path prefix if there is one.
-- 
2.43.0


From da55dadfa4c4ce26798e317a85b8bbe1e29e7d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:25 +0000
Subject: [PATCH 11/20] fix: files next to the Go installation, or all of them
 if its place is unknown, counted as system packages

---
 stack/frame.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stack/frame.go b/stack/frame.go
index 6d88911..d05f92b 100644
--- a/stack/frame.go
+++ b/stack/frame.go
@@ -67,5 +67,5 @@ var goroot = runtime.GOROOT()
 
 // isSystemPackage returns true iff the package is a system package like 'runtime' or 'net/http'
 func isSystemPackage(file, pkg string) bool {
-	return strings.HasPrefix(file, goroot)
+	return goroot != "" && strings.HasPrefix(file, strings.TrimSuffix(goroot, "/")+"/")
 }
-- 
2.43.0


From 2ed3fbd53300767a394b5a59b1a830a739c1e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:42 +0000
Subject: [PATCH 12/20] fix: healthd counted data again when a host reports in
 another time zone

---
 healthd/healthd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index b2013cb..7634d44 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -245,6 +245,9 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 		}
 
 		for _, intAgg := range resp.IntervalAggregations {
+			// Hosts may report the same instant in different time zones; times are compared and used as map keys here.
+			intAgg.IntervalStart = intAgg.IntervalStart.UTC()
+
 			key := hostAggregationKey{
 				Time:       intAgg.IntervalStart,
 				InstanceId: resp.InstanceId,
-- 
2.43.0


From 3384bd5b6f2599849761a6d1c69645b8ce647f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:42 +0000
Subject: [PATCH 13/20] fix: healthd lost host data of intervals it still
 serves

---
 healthd/healthd.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index 7634d44..1535e6c 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -25,7 +25,7 @@ type HealthD struct {
 	// These guys are the real aggregated deal
 	intervalAggregations []*health.IntervalAggregation
 
-	// let's keep the last 5 minutes worth of data from each host
+	// let's keep the data from each host for as long as its interval is in intervalAggregations
 	hostAggregations map[hostAggregationKey]*health.IntervalAggregation
 
 	// intervalsNeedingRecalculation is a set of intervals that need to be recalculated. It is cleared when they are recalculated.
@@ -265,19 +265,26 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 	}
 }
 
-// purge purges old hostAggregations older than 5 intervals
+// purge purges the hostAggregations of intervals that have been dropped. As long as an interval is kept, it may need to
+// be recalculated from the data of all hosts, eg when one of them reports late.
 func (agg *HealthD) purge() {
-	var threshold = agg.intervalDuration * 5 // NOTE: this is arbitrary.
-	for k, _ := range agg.hostAggregations {
-		if time.Since(k.Time) > threshold {
-			delete(agg.hostAggregations, k)
-		}
-	}
-
 	n := len(agg.intervalAggregations)
 	if n > agg.maxIntervals {
 		agg.intervalAggregations = agg.intervalAggregations[(n - agg.maxIntervals):]
 	}
+
+	kept := make(map[time.Time]struct{})
+	for _, intAgg := range agg.intervalAggregations {
+		kept[intAgg.IntervalStart] = struct{}{}
+	}
+	for k, _ := range agg.intervalsNeedingRecalculation {
+		kept[k] = struct{}{}
+	}
+	for k, _ := range agg.hostAggregations {
+		if _, ok := kept[k.Time]; !ok {
+			delete(agg.hostAggregations, k)
+		}
+	}
 }
 
 func (hd *HealthD) recalculateIntervals() {
-- 
2.43.0


From 2b235e6ae9f15bb3c0ecbf64868aa9e21f55e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:42 +0000
Subject: [PATCH 14/20] fix: healthd crashed on hosts reporting no interval
 duration or null entries

---
 healthd/healthd.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index 1535e6c..a1008a4 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -236,8 +236,13 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 
 	// Add resp to hostAggregations
 	if resp.Code == 200 && resp.Err == nil {
+		if resp.IntervalDuration <= 0 {
+			// Not something a health sink reports. We can't do anything with it.
+			return
+		}
+
 		if hd.intervalDuration == 0 {
-			hd.intervalDuration = resp.IntervalDuration // TODO: validate this
+			hd.intervalDuration = resp.IntervalDuration
 			hd.maxIntervals = int(hd.retain / hd.intervalDuration)
 		} else if hd.intervalDuration != resp.IntervalDuration {
 			fmt.Println("interval duration mismatch: agg.intervalDuration=", hd.intervalDuration, " but resp.IntervalDuration=", resp.IntervalDuration)
@@ -245,6 +250,11 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 		}
 
 		for _, intAgg := range resp.IntervalAggregations {
+			if intAgg == nil {
+				continue
+			}
+			removeNulls(intAgg)
+
 			// Hosts may report the same instant in different time zones; times are compared and used as map keys here.
 			intAgg.IntervalStart = intAgg.IntervalStart.UTC()
 
@@ -265,6 +275,31 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 	}
 }
 
+// removeNulls removes the entries that a host reported as null.
+func removeNulls(intAgg *health.IntervalAggregation) {
+	removeNullTimersAndErrs(intAgg.Timers, intAgg.EventErrs)
+	for k, job := range intAgg.Jobs {
+		if job == nil {
+			delete(intAgg.Jobs, k)
+		} else {
+			removeNullTimersAndErrs(job.Timers, job.EventErrs)
+		}
+	}
+}
+
+func removeNullTimersAndErrs(timers map[string]*health.TimerAggregation, eventErrs map[string]*health.ErrorCounter) {
+	for k, timer := range timers {
+		if timer == nil {
+			delete(timers, k)
+		}
+	}
+	for k, eventErr := range eventErrs {
+		if eventErr == nil {
+			delete(eventErrs, k)
+		}
+	}
+}
+
 // purge purges the hostAggregations of intervals that have been dropped. As long as an interval is kept, it may need to
 // be recalculated from the data of all hosts, eg when one of them reports late.
 func (agg *HealthD) purge() {
-- 
2.43.0


From 5419189340ae0452ff796c37e77b4d10e4760481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:42 +0000
Subject: [PATCH 15/20] fix: healthd deadlocked when many hosts answered at
 once

---
 healthd/healthd.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index a1008a4..1cdf94b 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -140,7 +140,11 @@ AGGREGATE_LOOP:
 				hd.recalculateIntervals()
 			} else {
 				hd.consumePollResponse(resp)
-				recalcIntervalsRequest <- struct{}{}
+				select {
+				case recalcIntervalsRequest <- struct{}{}:
+				default:
+					// There are plenty of requests pending. The debouncer may be waiting for us, so don't wait for it.
+				}
 			}
 		case <-recalcIntervals:
 			hd.recalculateIntervals()
-- 
2.43.0


From 1b52e09ae91fc1c423043963d3aa144b1087bc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:42 +0000
Subject: [PATCH 16/20] fix: healthd API requests hung forever when made just
 before Stop

---
 healthd/healthd.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/healthd/healthd.go b/healthd/healthd.go
index 1cdf94b..eadf932 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -40,6 +40,7 @@ type HealthD struct {
 	stopFlag           int64
 	stopAggregator     chan bool
 	stopStopAggregator chan bool
+	aggregatorStopped  chan struct{} // closed when the aggregator has stopped
 	stopHTTP           func() bool
 }
 
@@ -76,6 +77,7 @@ func StartNewHealthD(monitoredHostPorts []string, serverHostPort string, stream
 	hd.maxIntervals = 0       // We don't know this yet. See above.
 	hd.stopAggregator = make(chan bool)
 	hd.stopStopAggregator = make(chan bool)
+	hd.aggregatorStopped = make(chan struct{})
 
 	for _, hp := range monitoredHostPorts {
 		hd.hostStatus[hp] = &HostStatus{
@@ -153,6 +155,7 @@ AGGREGATE_LOOP:
 		case hostsChan := <-hostsChanChan:
 			hostsChan <- hd.memorySafeHosts()
 		case <-hd.stopAggregator:
+			close(hd.aggregatorStopped)
 			hd.stopStopAggregator <- true
 			break AGGREGATE_LOOP
 		}
@@ -180,8 +183,17 @@ func (hd *HealthD) getAggregationSequence() []*health.IntervalAggregation {
 		return nil
 	}
 	intervalsChan := make(chan []*health.IntervalAggregation)
-	hd.intervalsChanChan <- intervalsChan
-	return <-intervalsChan
+	select {
+	case hd.intervalsChanChan <- intervalsChan:
+	case <-hd.aggregatorStopped:
+		return nil
+	}
+	select {
+	case intervals := <-intervalsChan:
+		return intervals
+	case <-hd.aggregatorStopped:
+		return nil
+	}
 }
 
 func (hd *HealthD) getHosts() []*HostStatus {
@@ -189,8 +201,17 @@ func (hd *HealthD) getHosts() []*HostStatus {
 		return nil
 	}
 	hostsChan := make(chan []*HostStatus)
-	hd.hostsChanChan <- hostsChan
-	return <-hostsChan
+	select {
+	case hd.hostsChanChan <- hostsChan:
+	case <-hd.aggregatorStopped:
+		return nil
+	}
+	select {
+	case hosts := <-hostsChan:
+		return hosts
+	case <-hd.aggregatorStopped:
+		return nil
+	}
 }
 
 func (agg *HealthD) memorySafeIntervals() []*health.IntervalAggregation {
-- 
2.43.0


From f61ca5ec3745e116f078ea3da6b3b4602fc1c554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:13 +0000
Subject: [PATCH 17/20] fix: healthd used metric names as a format string in
 API responses

---
 healthd/api.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/healthd/api.go b/healthd/api.go
index 0334f22..b1d8475 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -185,7 +185,7 @@ func renderJson(rw http.ResponseWriter, data interface{}) {
 		renderError(rw, err)
 		return
 	}
-	fmt.Fprintf(rw, string(jsonData))
+	rw.Write(jsonData)
 }
 
 func renderNotFound(rw http.ResponseWriter) {
@@ -194,8 +194,9 @@ func renderNotFound(rw http.ResponseWriter) {
 }
 
 func renderError(rw http.ResponseWriter, err error) {
+	message, _ := json.Marshal(err.Error())
 	rw.WriteHeader(500)
-	fmt.Fprintf(rw, `{"error": "%s"}`, err.Error())
+	fmt.Fprintf(rw, `{"error": %s}`, message)
 }
 
 func combineAggregations(aggregations []*health.IntervalAggregation) *health.IntervalAggregation {
-- 
2.43.0


From f448ddee957473cedd250c66ac87c0a096cfd135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:13 +0000
Subject: [PATCH 18/20] fix: healthd's jobs endpoint failed when rounding made
 a variance negative

---
 healthd/api.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/healthd/api.go b/healthd/api.go
index b1d8475..c1655d4 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -323,8 +323,10 @@ func filterJobs(overall *health.IntervalAggregation, sort string, limit int) []*
 				stddev = 0
 			} else {
 				num := (float64(j.Count) * j.NanosSumSquares) - math.Pow(float64(j.NanosSum), 2)
-				div := float64(j.Count * (j.Count - 1))
-				stddev = math.Sqrt(num / div)
+				div := float64(j.Count) * float64(j.Count-1)
+				if num > 0 { // it can be slightly negative because of rounding when all times are about the same
+					stddev = math.Sqrt(num / div)
+				}
 			}
 		}
 		job := &Job{
-- 
2.43.0


From 53a5bae727881d256d1e94a74e273b979bbe28bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:13 +0000
Subject: [PATCH 19/20] fix: data race on healthd's interval duration between
 API and aggregator

---
 healthd/api.go     |  8 ++++----
 healthd/healthd.go | 13 ++++++++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/healthd/api.go b/healthd/api.go
index c1655d4..fba5ca2 100644
--- a/healthd/api.go
+++ b/healthd/api.go
@@ -133,7 +133,7 @@ func (c *apiContext) HealthMiddleware(rw web.ResponseWriter, r *web.Request, nex
 func (c *apiContext) Aggregations(rw web.ResponseWriter, r *web.Request) {
 	aggregations := c.hd.getAggregationSequence()
 	resp := &ApiResponseAggregations{
-		apiResponse:  getApiResponse(c.hd.intervalDuration),
+		apiResponse:  getApiResponse(c.hd.getIntervalDuration()),
 		Aggregations: aggregations,
 	}
 	renderJson(rw, resp)
@@ -143,7 +143,7 @@ func (c *apiContext) Overall(rw web.ResponseWriter, r *web.Request) {
 	aggregations := c.hd.getAggregationSequence()
 	overall := combineAggregations(aggregations)
 	resp := &ApiResponseAggregationsOverall{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Overall:     overall,
 	}
 	renderJson(rw, resp)
@@ -156,7 +156,7 @@ func (c *apiContext) Jobs(rw web.ResponseWriter, r *web.Request) {
 	overall := combineAggregations(aggregations)
 	jobs := filterJobs(overall, sort, limit)
 	resp := &ApiResponseJobs{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Jobs:        jobs,
 	}
 	renderJson(rw, resp)
@@ -166,7 +166,7 @@ func (c *apiContext) Hosts(rw web.ResponseWriter, r *web.Request) {
 	hosts := c.hd.getHosts()
 	sort.Sort(HostStatusByHostPort(hosts))
 	resp := &ApiResponseHosts{
-		apiResponse: getApiResponse(c.hd.intervalDuration),
+		apiResponse: getApiResponse(c.hd.getIntervalDuration()),
 		Hosts:       hosts,
 	}
 	renderJson(rw, resp)
diff --git a/healthd/healthd.go b/healthd/healthd.go
index eadf932..c09bcd8 100644
--- a/healthd/healthd.go
+++ b/healthd/healthd.go
@@ -10,11 +10,13 @@ import (
 )
 
 type HealthD struct {
-	stream *health.Stream
-
 	// How long is each aggregation interval. Eg, 1 minute
+	// Only the aggregator writes it. Everyone else must use getIntervalDuration. (It comes first because atomic
+	// operations need it 64-bit aligned on all platforms.)
 	intervalDuration time.Duration
 
+	stream *health.Stream
+
 	// Retain controls how many metrics interval we keep. Eg, 5 minutes
 	retain time.Duration
 
@@ -107,6 +109,11 @@ func (hd *HealthD) shouldStop() bool {
 	return v == 1
 }
 
+// getIntervalDuration returns the interval duration in use. It can be called from any goroutine.
+func (hd *HealthD) getIntervalDuration() time.Duration {
+	return time.Duration(atomic.LoadInt64((*int64)(&hd.intervalDuration)))
+}
+
 func (hd *HealthD) pollAndAggregate() {
 	ticker := time.Tick(10 * time.Second)
 
@@ -267,7 +274,7 @@ func (hd *HealthD) consumePollResponse(resp *pollResponse) {
 		}
 
 		if hd.intervalDuration == 0 {
-			hd.intervalDuration = resp.IntervalDuration
+			atomic.StoreInt64((*int64)(&hd.intervalDuration), int64(resp.IntervalDuration))
 			hd.maxIntervals = int(hd.retain / hd.intervalDuration)
 		} else if hd.intervalDuration != resp.IntervalDuration {
 			fmt.Println("interval duration mismatch: agg.intervalDuration=", hd.intervalDuration, " but resp.IntervalDuration=", resp.IntervalDuration)
-- 
2.43.0


From a01005f835cc2beb4999a078159972fd4bee2793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:11 +0000
Subject: [PATCH 20/20] fix: completion time grew from sink to sink while sinks
 handled it

---
 health.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/health.go b/health.go
index 22ee16f..418e454 100644
--- a/health.go
+++ b/health.go
@@ -168,15 +168,17 @@ func (j *Job) GaugeKv(eventName string, value float64, kvs map[string]string) {
 
 func (j *Job) Complete(status CompletionStatus) {
 	allKvs := j.mergedKeyValues(nil)
+	nanos := time.Since(j.Start).Nanoseconds()
 	for _, sink := range j.Stream.Sinks {
-		sink.EmitComplete(j.JobName, status, time.Since(j.Start).Nanoseconds(), allKvs)
+		sink.EmitComplete(j.JobName, status, nanos, allKvs)
 	}
 }
 
 func (j *Job) CompleteKv(status CompletionStatus, kvs map[string]string) {
 	allKvs := j.mergedKeyValues(kvs)
+	nanos := time.Since(j.Start).Nanoseconds()
 	for _, sink := range j.Stream.Sinks {
-		sink.EmitComplete(j.JobName, status, time.Since(j.Start).Nanoseconds(), allKvs)
+		sink.EmitComplete(j.JobName, status, nanos, allKvs)
 	}
 }
 
-- 
2.43.0

