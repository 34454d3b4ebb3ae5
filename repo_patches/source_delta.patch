From bb3ab6aab5022a27552f0025eddabd27264cd281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 01/18] fix: control calls can deadlock or be lost when a run
 ends, fails or is interrupted

Init, Play, Pause and interruptions are serialized, the end of a run is
observable by the sender of a status, locks are released when the
initialization fails, and a panic in the initialization is an error.
---
 core/algo.go |  36 +++++-----
 core/ctrl.go | 186 +++++++++++++++++++++++----------------------------
 2 files changed, 102 insertions(+), 120 deletions(-)

diff --git a/core/algo.go b/core/algo.go
index 214f9a3..b2c156b 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -23,6 +23,7 @@ type Algo struct {
 	status         OCStatus
 	statusChannel  chan OCStatus
 	ackChannel     chan bool
+	doneChannel    chan struct{} // closed when the last run is over
 	notifChannel   chan OCStatus
 	runtimeFigures RuntimeFigures
 	newData        int
@@ -33,7 +34,8 @@ type Algo struct {
 	timeout        Timeout
 
 	modelMutex  sync.RWMutex // algo model mutex
-	statusMutex sync.RWMutex // algo model mutex
+	statusMutex sync.RWMutex // algo status mutex
+	ctrlMutex   sync.Mutex   // serializes control calls, locked before the others
 }
 
 // NewAlgo creates a new algorithm instance
@@ -58,28 +60,30 @@ func NewAlgo(conf Conf, impl Impl, space Space) (algo *Algo) {
 }
 
 // change of status
-func (algo *Algo) setStatus(status OCStatus, safe bool) {
-	if safe {
-		algo.statusMutex.Lock()
-		algo.status = status
-		algo.statusMutex.Unlock()
-	} else {
-		algo.status = status
-	}
+func (algo *Algo) setStatus(status OCStatus) {
+	algo.statusMutex.Lock()
+	algo.status = status
+	algo.statusMutex.Unlock()
 	algo.notifChannel <- status
 }
 
-// receiveStatus status from main routine
-func (algo *Algo) receiveStatus() {
-	var status = <-algo.statusChannel
-	algo.setStatus(status, true)
+// receiveStatus applies a status sent to the run routine, then waits for the next one while idle
+func (algo *Algo) receiveStatus(status OCStatus) {
+	algo.setStatus(status)
 	algo.ackChannel <- true
+	for algo.Status().Value == Idle {
+		algo.setStatus(<-algo.statusChannel)
+		algo.ackChannel <- true
+	}
 }
 
-// sendStatus status to run go routine
+// sendStatus status to run go routine, returns false if the run is over
 func (algo *Algo) sendStatus(status OCStatus) (ok bool) {
-	algo.statusChannel <- status
-	_, ok = <-algo.ackChannel
+	select {
+	case algo.statusChannel <- status:
+		ok = <-algo.ackChannel
+	case <-algo.doneChannel:
+	}
 	return
 }
 
diff --git a/core/ctrl.go b/core/ctrl.go
index f1889c3..630e1e2 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -58,13 +58,14 @@ func (algo *Algo) Batch() (err error) {
 
 // Init initialize centroids and set status to Ready
 func (algo *Algo) Init() error {
-	algo.statusMutex.Lock()
-	defer algo.statusMutex.Unlock()
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
 	return algo.init()
 }
 
+// init must be called with ctrlMutex locked
 func (algo *Algo) init() (err error) {
-	switch algo.status.Value {
+	switch algo.Status().Value {
 	case Finished:
 		algo.modelMutex.Lock()
 		algo.pushedData = 0
@@ -74,74 +75,83 @@ func (algo *Algo) init() (err error) {
 		algo.runtimeFigures = RuntimeFigures{}
 		algo.updateRuntimeFigures()
 		algo.modelMutex.Unlock()
-		fallthrough
+		err = algo.initialize()
 	case Created:
-		if algo.status.Value == Created {
-			algo.notifChannel = make(chan OCStatus)
-			go algo.notificationLoop()
+		algo.notifChannel = make(chan OCStatus)
+		go algo.notificationLoop()
+		err = algo.initialize()
+	default:
+		err = ErrAlreadyCreated
+	}
+	return
+}
+
+// initialize centroids with the implementation
+func (algo *Algo) initialize() (err error) {
+	var centroids Clust
+	defer func() {
+		if recovery := recover(); recovery != nil {
+			err = fmt.Errorf("%v", recovery)
 		}
-		algo.setStatus(NewOCStatus(Initializing), false)
-		var centroids Clust
-		centroids, err = algo.impl.Init(algo)
-		algo.modelMutex.Lock()
-		algo.centroids = centroids
-		algo.modelMutex.Unlock()
 		if err == nil {
-			algo.setStatus(NewOCStatus(Ready), false)
+			algo.setStatus(NewOCStatus(Ready))
 		} else {
-			algo.setStatus(NewOCStatusError(err), false)
+			algo.setStatus(NewOCStatusError(err))
 		}
-	default:
-		err = ErrAlreadyCreated
-	}
+	}()
+	algo.setStatus(NewOCStatus(Initializing))
+	centroids, err = algo.impl.Init(algo)
+	algo.modelMutex.Lock()
+	algo.centroids = centroids
+	algo.modelMutex.Unlock()
 	return
 }
 
 // Play the algorithm in online mode
 func (algo *Algo) Play() (err error) {
-	algo.statusMutex.Lock()
-	switch algo.status.Value {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
+	switch algo.Status().Value {
 	case Idle:
-		algo.statusMutex.Unlock()
 		algo.sendStatus(NewOCStatus(Running))
 	case Finished:
 		fallthrough
 	case Created:
 		err = algo.init()
-		if err != nil && err != ErrAlreadyCreated {
-			return
+		if err == nil {
+			algo.start()
 		}
-		err = nil
-		fallthrough
 	case Ready:
-		go algo.run()
-		algo.statusMutex.Unlock()
-		algo.sendStatus(NewOCStatus(Running))
-		if algo.timeout != nil {
-			algo.timeout.Disable()
-		}
-		var interruptionTimeout = algo.Conf().Ctrl().Timeout
-		if interruptionTimeout > 0 {
-			algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
-		}
+		algo.start()
 	case Running:
-		algo.statusMutex.Unlock()
 		err = ErrRunning
 	}
 	return
 }
 
+// start a new run, must be called with ctrlMutex locked
+func (algo *Algo) start() {
+	if algo.doneChannel != nil { // the previous run may be cleaning up
+		<-algo.doneChannel
+	}
+	algo.doneChannel = make(chan struct{})
+	go algo.run()
+	algo.sendStatus(NewOCStatus(Running))
+	if algo.timeout != nil {
+		algo.timeout.Disable()
+	}
+	var interruptionTimeout = algo.Conf().Ctrl().Timeout
+	if interruptionTimeout > 0 {
+		algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
+	}
+}
+
 // Pause the algorithm and set status to idle
 func (algo *Algo) Pause() (err error) {
-	algo.statusMutex.Lock()
-	if algo.status.Value == Running {
-		algo.statusMutex.Unlock()
-		if !algo.sendStatus(NewOCStatus(Idle)) {
-			err = ErrNotRunning
-		}
-	} else {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
+	if algo.Status().Value != Running || !algo.sendStatus(NewOCStatus(Idle)) {
 		err = ErrNotRunning
-		algo.statusMutex.Unlock()
 	}
 	return
 }
@@ -174,19 +184,15 @@ func (algo *Algo) Wait(finishing Finishing, timeout time.Duration) (err error) {
 
 // interrupt the algorithm
 func (algo *Algo) interrupt(interruption error) (err error) {
-	algo.statusMutex.Lock()
-	switch algo.status.Value {
-	case Ready:
-		algo.setStatus(NewOCStatusError(interruption), false)
-		algo.statusMutex.Unlock()
-	case Idle:
-		fallthrough
-	case Running:
-		algo.statusMutex.Unlock()
-		algo.sendStatus(NewOCStatusError(interruption))
-		err = algo.status.Error
-	default:
-		algo.statusMutex.Unlock()
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
+	var status = NewOCStatusError(interruption)
+	if algo.Status().Running() && algo.sendStatus(status) {
+		<-algo.doneChannel
+		err = interruption
+	} else if algo.Status().Value == Ready { // waiting, or the run was just over
+		algo.setStatus(status)
+	} else {
 		err = ErrNotAlive
 	}
 	return
@@ -204,47 +210,24 @@ func (algo *Algo) Predict(elemt Elemt) (pred Elemt, label int, dist float64) {
 	return
 }
 
-func (algo *Algo) recover(start time.Time) {
-	algo.statusMutex.Lock()
-	defer algo.statusMutex.Unlock()
-	var recovery = recover()
-	if recovery != nil {
-		var err = fmt.Errorf("%v", recovery)
-		algo.setStatus(NewOCStatusError(err), false)
-	}
-	// wait a few between client time processing between releasing statusMutex and sendStatus
-	time.Sleep(100 * time.Millisecond)
-	// update algo runtime figures
+// terminate the run: save its duration then set its final status
+func (algo *Algo) terminate(start time.Time, err error) {
 	algo.modelMutex.Lock()
-	// algo.newData = int(math.Max(0, float64(algo.newData-newData)))
-	var duration = time.Now().Sub(start)
-	algo.duration += duration
+	algo.duration += time.Now().Sub(start)
 	algo.runtimeFigures[Duration] = float64(algo.duration)
 	algo.modelMutex.Unlock()
-	// clean up channels
-	select {
-	// get client status if client quiered to stop or timeout interruption
-	case status := <-algo.statusChannel:
-		if recovery == nil {
-			algo.setStatus(status, false)
-		}
-	default:
-	}
-	// free client ack channel
-	select { // close ack channel
-	case <-algo.ackChannel:
-	default:
-		close(algo.ackChannel)
+	if err != nil {
+		algo.setStatus(NewOCStatusError(err))
+	} else if algo.Status().Value == Running {
+		algo.setStatus(NewOCStatus(Ready))
 	}
 }
 
 // Initialize the algorithm, if success run it synchronously otherwise return an error
 func (algo *Algo) run() {
-	algo.ackChannel = make(chan bool)
-
 	var err error
 	var conf = algo.conf.Ctrl()
-	var centroids = algo.centroids
+	var centroids Clust
 	var runtimeFigures RuntimeFigures
 	var iterFreq time.Duration
 	if conf.IterFreq > 0 {
@@ -262,24 +245,26 @@ func (algo *Algo) run() {
 		finishing = NewOrFinishing(finishing, conf.Finishing)
 	}
 
-	defer algo.recover(start)
+	defer close(algo.doneChannel)
+	defer func() {
+		if recovery := recover(); recovery != nil {
+			err = fmt.Errorf("%v", recovery)
+		}
+		algo.terminate(start, err)
+	}()
 
-	algo.receiveStatus()
+	algo.receiveStatus(<-algo.statusChannel)
 
-	for err == nil && algo.status.Value == Running && !IsFinished(finishing, algo) {
+	for err == nil && algo.Status().Value == Running && !IsFinished(finishing, algo) {
 		select { // check for algo status update
 		case status := <-algo.statusChannel:
-			algo.setStatus(status, true)
-			if status.Value == Idle {
-				algo.ackChannel <- true
-				algo.receiveStatus()
-			}
+			algo.receiveStatus(status)
 		default:
 			// run implementation
 			// newData = algo.newData
 			centroids, runtimeFigures, err = algo.impl.Iterate(
 				NewSimpleOCModel(
-					algo.conf, algo.space, algo.status, algo.runtimeFigures, algo.centroids,
+					algo.conf, algo.space, algo.Status(), algo.runtimeFigures, algo.centroids,
 				),
 			)
 			duration = time.Now().Sub(start)
@@ -301,13 +286,6 @@ func (algo *Algo) run() {
 			}
 		}
 	}
-	if err == nil {
-		if algo.status.Value == Running {
-			algo.setStatus(NewOCStatus(Ready), true)
-		}
-	} else {
-		algo.setStatus(NewOCStatusError(err), true)
-	}
 }
 
 func (algo *Algo) updateRuntimeFigures() {
-- 
2.43.0


From 2a8525ad680fcf442b2547e23eaa2df461d73fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:06 +0000
Subject: [PATCH 02/18] fix: Push takes the status lock under the model lock
 and may deadlock or revive a stopped algorithm

---
 core/ctrl.go | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 630e1e2..c8ec061 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -25,24 +25,41 @@ func (algo *Algo) Push(elemt Elemt) (err error) {
 		algo.modelMutex.Lock()
 		algo.pushedData++
 		algo.lastDataTime = time.Now().Unix()
-		var conf = algo.conf.Ctrl()
-		if algo.Status().Value == Ready && conf.DataPerIter > 0 && conf.DataPerIter <= algo.newData {
-			algo.newData = 0
-		} else {
-			algo.newData++
-		}
+		algo.newData++
+		var resume = algo.canResume()
 		algo.updateRuntimeFigures()
 		algo.modelMutex.Unlock()
 		// try to play if waiting
-		algo.modelMutex.RLock()
-		defer algo.modelMutex.RUnlock()
-		if algo.newData == 0 {
-			algo.Play()
+		if resume && algo.Status().Value == Ready {
+			algo.resume()
 		}
 	}
 	return
 }
 
+// canResume is true if there are enough new data, must be called with modelMutex locked
+func (algo *Algo) canResume() bool {
+	var conf = algo.conf.Ctrl()
+	return conf.DataPerIter > 0 && conf.DataPerIter < algo.newData
+}
+
+// resume starts a new run if the algorithm is still waiting for new data
+func (algo *Algo) resume() {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
+	if algo.Status().Value == Ready {
+		algo.modelMutex.Lock()
+		var resume = algo.canResume()
+		if resume {
+			algo.newData = 0
+		}
+		algo.modelMutex.Unlock()
+		if resume {
+			algo.start()
+		}
+	}
+}
+
 // Batch executes the algorithm in batch mode
 func (algo *Algo) Batch() (err error) {
 	algo.Stop()
-- 
2.43.0


From 0e307dd961125932e41b69fd50b3b2d7d5054eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:13 +0000
Subject: [PATCH 03/18] fix: RuntimeFigures returns the live map of the
 algorithm

---
 core/ctrl.go    | 6 ++----
 core/figures.go | 9 +++++++++
 core/model.go   | 2 +-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index c8ec061..bfec767 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -281,7 +281,7 @@ func (algo *Algo) run() {
 			// newData = algo.newData
 			centroids, runtimeFigures, err = algo.impl.Iterate(
 				NewSimpleOCModel(
-					algo.conf, algo.space, algo.Status(), algo.runtimeFigures, algo.centroids,
+					algo.conf, algo.space, algo.Status(), algo.RuntimeFigures(), algo.centroids,
 				),
 			)
 			duration = time.Now().Sub(start)
@@ -312,9 +312,7 @@ func (algo *Algo) updateRuntimeFigures() {
 }
 
 func (algo *Algo) saveIterContext(centroids Clust, runtimeFigures RuntimeFigures, duration time.Duration) {
-	if runtimeFigures == nil {
-		runtimeFigures = RuntimeFigures{}
-	}
+	runtimeFigures = runtimeFigures.copy()
 	runtimeFigures[Duration] = float64(algo.duration + duration)
 	algo.centroids = centroids
 	algo.runtimeFigures = runtimeFigures
diff --git a/core/figures.go b/core/figures.go
index 79a76be..b581189 100644
--- a/core/figures.go
+++ b/core/figures.go
@@ -13,3 +13,12 @@ const (
 	// LastDataTime is the last pushed data time
 	LastDataTime = "lastDataTime"
 )
+
+// copy figures
+func (figures RuntimeFigures) copy() RuntimeFigures {
+	var result = make(RuntimeFigures, len(figures))
+	for name, value := range figures {
+		result[name] = value
+	}
+	return result
+}
diff --git a/core/model.go b/core/model.go
index 6a422f0..eb9aa57 100644
--- a/core/model.go
+++ b/core/model.go
@@ -28,7 +28,7 @@ func (algo *Algo) Space() Space {
 func (algo *Algo) RuntimeFigures() (figures RuntimeFigures) {
 	algo.modelMutex.RLock()
 	defer algo.modelMutex.RUnlock()
-	return algo.runtimeFigures
+	return algo.runtimeFigures.copy()
 }
 
 // Conf returns configuration
-- 
2.43.0


From 6fab66172ccc6a76d00e8c4bf694ecf3b4c71481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 04/18] fix: a slow or re-entrant status notifier blocks the
 algorithm, and its routine leaks

---
 core/algo.go | 31 ++++++++++++++++++++++++++++---
 core/ctrl.go |  4 +---
 2 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/core/algo.go b/core/algo.go
index b2c156b..9c691d8 100644
--- a/core/algo.go
+++ b/core/algo.go
@@ -24,7 +24,8 @@ type Algo struct {
 	statusChannel  chan OCStatus
 	ackChannel     chan bool
 	doneChannel    chan struct{} // closed when the last run is over
-	notifChannel   chan OCStatus
+	notifications  []OCStatus    // status changes to notify, in order
+	notifying      bool          // true while a routine delivers notifications
 	runtimeFigures RuntimeFigures
 	newData        int
 	pushedData     int
@@ -63,8 +64,8 @@ func NewAlgo(conf Conf, impl Impl, space Space) (algo *Algo) {
 func (algo *Algo) setStatus(status OCStatus) {
 	algo.statusMutex.Lock()
 	algo.status = status
+	algo.enqueueNotification(status)
 	algo.statusMutex.Unlock()
-	algo.notifChannel <- status
 }
 
 // receiveStatus applies a status sent to the run routine, then waits for the next one while idle
@@ -87,6 +88,30 @@ func (algo *Algo) sendStatus(status OCStatus) (ok bool) {
 	return
 }
 
+// enqueueNotification must be called with statusMutex locked
+func (algo *Algo) enqueueNotification(status OCStatus) {
+	if algo.conf.Ctrl().StatusNotifier != nil {
+		algo.notifications = append(algo.notifications, status)
+		if !algo.notifying {
+			algo.notifying = true
+			go algo.notificationLoop()
+		}
+	}
+}
+
+// nextNotification returns false if all notifications have been delivered
+func (algo *Algo) nextNotification() (status OCStatus, ok bool) {
+	algo.statusMutex.Lock()
+	defer algo.statusMutex.Unlock()
+	if ok = len(algo.notifications) > 0; ok {
+		status = algo.notifications[0]
+		algo.notifications = algo.notifications[1:]
+	} else {
+		algo.notifying = false
+	}
+	return
+}
+
 func (algo *Algo) notify(status OCStatus) {
 	algo.modelMutex.RLock()
 	var statusNotifier = algo.conf.Ctrl().StatusNotifier
@@ -98,7 +123,7 @@ func (algo *Algo) notify(status OCStatus) {
 
 func (algo *Algo) notificationLoop() {
 	for {
-		var status, ok = <-algo.notifChannel
+		var status, ok = algo.nextNotification()
 		if !ok {
 			return
 		}
diff --git a/core/ctrl.go b/core/ctrl.go
index bfec767..a354960 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -92,10 +92,8 @@ func (algo *Algo) init() (err error) {
 		algo.runtimeFigures = RuntimeFigures{}
 		algo.updateRuntimeFigures()
 		algo.modelMutex.Unlock()
-		err = algo.initialize()
+		fallthrough
 	case Created:
-		algo.notifChannel = make(chan OCStatus)
-		go algo.notificationLoop()
 		err = algo.initialize()
 	default:
 		err = ErrAlreadyCreated
-- 
2.43.0


From 76b644b9537846fe1c9d04a4de498b464c528164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 05/18] fix: an elapsed timeout may interrupt a later life of
 the algorithm

---
 core/ctrl.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index a354960..5d1afb6 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -103,6 +103,7 @@ func (algo *Algo) init() (err error) {
 
 // initialize centroids with the implementation
 func (algo *Algo) initialize() (err error) {
+	algo.disableTimeout()
 	var centroids Clust
 	defer func() {
 		if recovery := recover(); recovery != nil {
@@ -152,12 +153,27 @@ func (algo *Algo) start() {
 	algo.doneChannel = make(chan struct{})
 	go algo.run()
 	algo.sendStatus(NewOCStatus(Running))
-	if algo.timeout != nil {
-		algo.timeout.Disable()
-	}
+	algo.disableTimeout()
 	var interruptionTimeout = algo.Conf().Ctrl().Timeout
 	if interruptionTimeout > 0 {
-		algo.timeout = InterruptionTimeout(interruptionTimeout, algo.interrupt)
+		var timeout Timeout
+		timeout = InterruptionTimeout(interruptionTimeout, func(interruption error) error {
+			algo.ctrlMutex.Lock()
+			defer algo.ctrlMutex.Unlock()
+			if !timeout.Enabled() { // disabled since it elapsed
+				return ErrNotAlive
+			}
+			return algo.interrupt(interruption)
+		})
+		algo.timeout = timeout
+	}
+}
+
+// disableTimeout must be called with ctrlMutex locked
+func (algo *Algo) disableTimeout() {
+	if algo.timeout != nil {
+		algo.timeout.Disable()
+		algo.timeout = nil
 	}
 }
 
@@ -197,10 +213,9 @@ func (algo *Algo) Wait(finishing Finishing, timeout time.Duration) (err error) {
 	return
 }
 
-// interrupt the algorithm
+// interrupt the algorithm, must be called with ctrlMutex locked
 func (algo *Algo) interrupt(interruption error) (err error) {
-	algo.ctrlMutex.Lock()
-	defer algo.ctrlMutex.Unlock()
+	algo.disableTimeout()
 	var status = NewOCStatusError(interruption)
 	if algo.Status().Running() && algo.sendStatus(status) {
 		<-algo.doneChannel
@@ -215,6 +230,8 @@ func (algo *Algo) interrupt(interruption error) (err error) {
 
 // Stop the algorithm
 func (algo *Algo) Stop() (err error) {
+	algo.ctrlMutex.Lock()
+	defer algo.ctrlMutex.Unlock()
 	return algo.interrupt(nil)
 }
 
-- 
2.43.0


From 393cfb751feb35b4f9326cc3673498b8ac0d1f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:07 +0000
Subject: [PATCH 06/18] fix: Batch returns no error when the run fails before
 it waits

---
 core/ctrl.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ctrl.go b/core/ctrl.go
index 5d1afb6..e4d6df7 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -66,6 +66,9 @@ func (algo *Algo) Batch() (err error) {
 	err = algo.Play()
 	if err == nil {
 		err = algo.Wait(nil, 0)
+		if err == nil { // the run may have failed before waiting
+			err = algo.Status().Error
+		}
 		if err == nil {
 			algo.Stop()
 		}
-- 
2.43.0


From f1e1d710f8fecf0b98035eecaee3e238534e396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 07/18] fix: concurrent pushes corrupt or reorder buffered data
 and block when too many are staged

---
 core/buffer.go | 62 +++++++++++++++++++++++++++-----------------------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/core/buffer.go b/core/buffer.go
index dce1fbd..a5e64ed 100644
--- a/core/buffer.go
+++ b/core/buffer.go
@@ -1,5 +1,7 @@
 package core
 
+import "sync"
+
 // Buffer interface
 type Buffer interface {
 	Push(elemt Elemt, running bool) error
@@ -12,20 +14,16 @@ type Buffer interface {
 // In asynchronous mode, when pushed() is called data are staged.
 // Staged data are stored when apply() is called.
 type DataBuffer struct {
-	pipe     chan Elemt
+	mutex    sync.Mutex
+	staged   []Elemt
 	data     []Elemt
 	strategy bufferSizeStrategy
 }
 
-// Maximal default pipe size
-const pipeSize = 2000
-
 // NewDataBuffer creates a fixed size buffer if given size > 0.
 // Otherwise creates an infinite size buffer.
 func NewDataBuffer(data []Elemt, size int) Buffer {
-	var db = DataBuffer{
-		pipe: make(chan Elemt, pipeSize),
-	}
+	var db = DataBuffer{}
 
 	switch {
 	case size > len(data):
@@ -51,46 +49,44 @@ func NewDataBuffer(data []Elemt, size int) Buffer {
 }
 
 // Push stores or stages an element depending on synchronous / asynchronous mode.
+// Elements already staged are stored before.
 func (b *DataBuffer) Push(elmt Elemt, running bool) (err error) {
-	if running {
-		b.pipe <- elmt
-	} else {
-		b.data = b.strategy.push(b.data, elmt)
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+	b.staged = append(b.staged, elmt)
+	if !running {
+		b.apply()
 	}
 	return
 }
 
-// Data returns buffer data
+// Data returns a copy of buffer data, from the oldest to the newest
 func (b *DataBuffer) Data() (data []Elemt) {
-	return b.data
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+	return b.strategy.copy(b.data)
 }
 
 // Apply all staged data in asynchronous mode, otherwise do nothing
 func (b *DataBuffer) Apply() (err error) {
-	for b.applyNext() {
-	}
+	b.mutex.Lock()
+	defer b.mutex.Unlock()
+	b.apply()
 	return
 }
 
-// Applies next staged data if available and returns true.
-// Otherwise returns false.
-func (b *DataBuffer) applyNext() (ok bool) {
-	var elmt Elemt
-
-	select {
-	case elmt, ok = <-b.pipe:
-		if ok {
-			b.data = b.strategy.push(b.data, elmt)
-		}
-	default:
+// Applies all staged data, must be called with mutex locked
+func (b *DataBuffer) apply() {
+	for _, elmt := range b.staged {
+		b.data = b.strategy.push(b.data, elmt)
 	}
-
-	return
+	b.staged = nil
 }
 
 // Handle the way data are stored, i.e. infinite or fixed size buffer.
 type bufferSizeStrategy interface {
 	push(data []Elemt, elemt Elemt) []Elemt
+	copy(data []Elemt) []Elemt
 }
 
 // Fixed size buffer
@@ -115,6 +111,12 @@ func (s *fixedSizeStrategy) push(data []Elemt, elemt Elemt) []Elemt {
 	return data
 }
 
+func (s *fixedSizeStrategy) copy(data []Elemt) []Elemt {
+	var result = make([]Elemt, 0, len(data))
+	result = append(result, data[s.position:]...)
+	return append(result, data[:s.position]...)
+}
+
 // Infinite size buffer
 type infiniteSizeStrategy struct {
 }
@@ -122,3 +124,7 @@ type infiniteSizeStrategy struct {
 func (s *infiniteSizeStrategy) push(data []Elemt, elemt Elemt) []Elemt {
 	return append(data, elemt)
 }
+
+func (s *infiniteSizeStrategy) copy(data []Elemt) []Elemt {
+	return append(make([]Elemt, 0, len(data)), data...)
+}
-- 
2.43.0


From f26bb79d14e4ca5771c9fb7a43fbf7181a720350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:16 +0000
Subject: [PATCH 08/18] fix: centroids of a failed initialization are published
 and make Predict panic

---
 core/ctrl.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index e4d6df7..1f8b6d8 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -120,9 +120,11 @@ func (algo *Algo) initialize() (err error) {
 	}()
 	algo.setStatus(NewOCStatus(Initializing))
 	centroids, err = algo.impl.Init(algo)
-	algo.modelMutex.Lock()
-	algo.centroids = centroids
-	algo.modelMutex.Unlock()
+	if err == nil {
+		algo.modelMutex.Lock()
+		algo.centroids = centroids
+		algo.modelMutex.Unlock()
+	}
 	return
 }
 
-- 
2.43.0


From 7a9c7b650ebc729cea651db554d419282692bfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 09/18] fix: WeightedChoice returns an index out of range for
 extreme draws or rounding

---
 kmeans/init.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/kmeans/init.go b/kmeans/init.go
index 600abe1..753967e 100644
--- a/kmeans/init.go
+++ b/kmeans/init.go
@@ -100,7 +100,6 @@ func RandInitializer(k int, elemts []core.Elemt, space core.Space, src *rand.Ran
 // WeightedChoice returns random index given corresponding weights
 func WeightedChoice(weights []float64, rand *rand.Rand) (int, error) {
 	var sum float64
-	var idx int
 
 	for _, x := range weights {
 		sum += x
@@ -111,10 +110,17 @@ func WeightedChoice(weights []float64, rand *rand.Rand) (int, error) {
 	}
 
 	var cursor = rand.Float64() * sum
-	for cursor > 0 {
-		cursor -= weights[idx]
-		idx++
+	var last int // last index with a positive weight
+
+	for i, x := range weights {
+		if x > 0 {
+			last = i
+			cursor -= x
+			if cursor < 0 {
+				break
+			}
+		}
 	}
 
-	return idx - 1, nil
+	return last, nil
 }
-- 
2.43.0


From 99099aee0b6f90779f1d8b145f0da1fb74af5606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 10/18] fix: nearest centroid is wrong when a distance is
 slightly negative

---
 core/clustering.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/clustering.go b/core/clustering.go
index 368697e..919ccf9 100644
--- a/core/clustering.go
+++ b/core/clustering.go
@@ -143,7 +143,7 @@ func (c *Clust) nearest(elemt Elemt, space Space) (label int, min float64) {
 	label = -1
 
 	for i := 0; i < len(*c); i++ {
-		if d := space.Dist(elemt, (*c)[i]); min < 0 || min > d {
+		if d := space.Dist(elemt, (*c)[i]); label < 0 || min > d {
 			min = d
 			label = i
 		}
-- 
2.43.0


From 7343e73d8ee7fe5becd5d2bb4534c7315ccb3e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 11/18] fix: published streaming centroids are modified by
 later iterations

---
 streaming/impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/streaming/impl.go b/streaming/impl.go
index 84b3730..f57dde3 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -62,7 +62,7 @@ func (impl *Impl) Iterate(model core.OCModel) (clust core.Clust, runtimeFigures
 	select {
 	case elemt := <-impl.c:
 		impl.Process(elemt, model.Space())
-		clust = impl.clust
+		clust = append(core.Clust{}, impl.clust...) // later iterations update impl.clust in place
 	default:
 	}
 	runtimeFigures = impl.runtimeFigures()
-- 
2.43.0


From 3fe83bfc528e76c523ec9ac95a8495282f5cc891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:45 +0000
Subject: [PATCH 12/18] fix: LateDistrib reads its state without
 synchronization

---
 mcmc/latedistrib.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/mcmc/latedistrib.go b/mcmc/latedistrib.go
index 488910f..be39282 100644
--- a/mcmc/latedistrib.go
+++ b/mcmc/latedistrib.go
@@ -27,27 +27,20 @@ func NewLateDistrib(initializer DistribBuilder) *LateDistrib {
 
 // Sample initializes the wrapped Distrib if necessary then forward to its Sample method
 func (d *LateDistrib) Sample(mu core.Elemt, time int) core.Elemt {
-	d.initialize(mu)
-	return d.distrib.Sample(mu, time)
+	return d.initialize(mu).Sample(mu, time)
 }
 
 // Pdf initializes the wrapped Distrib if necessary then forward to its Pdf method
 func (d *LateDistrib) Pdf(x, mu core.Elemt, time int) float64 {
-	d.initialize(mu)
-	return d.distrib.Pdf(x, mu, time)
+	return d.initialize(mu).Pdf(x, mu, time)
 }
 
-func (d *LateDistrib) initialize(elemt core.Elemt) {
-	if !d.initialized {
-		d.tryInitialize(elemt)
-	}
-}
-
-func (d *LateDistrib) tryInitialize(elemt core.Elemt) {
+func (d *LateDistrib) initialize(elemt core.Elemt) Distrib {
 	d.mu.Lock()
 	defer d.mu.Unlock()
 	if !d.initialized {
 		d.distrib = d.initializer(elemt)
 		d.initialized = true
 	}
+	return d.distrib
 }
-- 
2.43.0


From 6defa1623b62aebc9e6d48380adbb1cfeae29507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 13/18] fix: Copy ignores the given configuration and space,
 and loses staged data

---
 core/ctrl.go   | 3 ++-
 kmeans/impl.go | 1 +
 mcmc/impl.go   | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index 1f8b6d8..a51d14b 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -385,7 +385,8 @@ func (algo *Algo) SetSpace(space Space) (err error) {
 
 // Copy make a copy of this algo with new conf and space
 func (algo *Algo) Copy(conf Conf, space Space) (oc OnlineClust, err error) {
-	impl, err := algo.impl.Copy(algo)
+	var model = NewSimpleOCModel(conf, space, algo.Status(), algo.RuntimeFigures(), algo.Centroids())
+	impl, err := algo.impl.Copy(model)
 	if err == nil {
 		oc = NewAlgo(conf, impl, space)
 	}
diff --git a/kmeans/impl.go b/kmeans/impl.go
index 9e768f0..48fda02 100644
--- a/kmeans/impl.go
+++ b/kmeans/impl.go
@@ -38,6 +38,7 @@ func (impl *Impl) Push(elemt core.Elemt, model core.OCModel) error {
 // Copy impl
 func (impl *Impl) Copy(model core.OCModel) (core.Impl, error) {
 	var newConf = model.Conf().(*Conf)
+	_ = impl.buffer.Apply()
 	var algo = NewAlgo(*newConf, model.Space(), impl.buffer.Data(), impl.initializer)
 	return algo.Impl(), nil
 }
diff --git a/mcmc/impl.go b/mcmc/impl.go
index 9e6d469..9cfd51b 100644
--- a/mcmc/impl.go
+++ b/mcmc/impl.go
@@ -29,6 +29,7 @@ type Impl struct {
 // Copy impl
 func (impl *Impl) Copy(model core.OCModel) (core.Impl, error) {
 	var newConf = model.Conf().(*Conf)
+	_ = impl.buffer.Apply()
 	var algo = NewAlgo(*newConf, model.Space(), impl.buffer.Data(), impl.initializer, impl.distrib)
 	return algo.Impl(), nil
 }
-- 
2.43.0


From 409c8b380ee398660df60b2789987e8295a1bdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 14/18] fix: mcmc acceptations are not reset with the
 iterations

---
 mcmc/impl.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mcmc/impl.go b/mcmc/impl.go
index 9cfd51b..838aa20 100644
--- a/mcmc/impl.go
+++ b/mcmc/impl.go
@@ -57,6 +57,7 @@ func (impl *Impl) Init(model core.OCModel) (centroids core.Clust, err error) {
 			pdf:     impl.proba(*mcmcConf, space, centroids, centroids, currentTime),
 		}
 		impl.time = currentTime
+		impl.acc = 0
 	}
 	return
 }
-- 
2.43.0


From af5e4f623fc31335417866707b1c512d1b898c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:10 +0000
Subject: [PATCH 15/18] fix: a streaming algorithm initialized again keeps the
 centroids of its previous life

---
 streaming/impl.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/streaming/impl.go b/streaming/impl.go
index f57dde3..a4ec98c 100644
--- a/streaming/impl.go
+++ b/streaming/impl.go
@@ -48,6 +48,8 @@ func (impl *Impl) Init(model core.OCModel) (clust core.Clust, err error) {
 	select {
 	case centroids := <-impl.c:
 		clust = core.Clust{centroids}
+		impl.clust, impl.cards = nil, nil
+		impl.maxDistance, impl.count = 0, 0
 		for i := range clust {
 			impl.AddCenter(clust[i], 0.)
 		}
-- 
2.43.0


From 39f05e2fee4518bd57ffaf9a3f1ce8e1e5e8013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:15 +0000
Subject: [PATCH 16/18] fix: two iterations run back to back after a pause
 despite IterFreq

---
 core/ctrl.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ctrl.go b/core/ctrl.go
index a51d14b..31cc2dd 100644
--- a/core/ctrl.go
+++ b/core/ctrl.go
@@ -270,7 +270,7 @@ func (algo *Algo) run() {
 	if conf.IterFreq > 0 {
 		iterFreq = time.Duration(float64(time.Second) / conf.IterFreq)
 	}
-	var lastIterationTime = time.Now()
+	var lastIterationTime time.Time
 
 	// var newData int
 
@@ -299,6 +299,7 @@ func (algo *Algo) run() {
 		default:
 			// run implementation
 			// newData = algo.newData
+			lastIterationTime = time.Now()
 			centroids, runtimeFigures, err = algo.impl.Iterate(
 				NewSimpleOCModel(
 					algo.conf, algo.space, algo.Status(), algo.RuntimeFigures(), algo.centroids,
@@ -318,7 +319,6 @@ func (algo *Algo) run() {
 				if iterFreq > 0 { // with iteration freqency
 					var diff = iterFreq - time.Now().Sub(lastIterationTime)
 					time.Sleep(diff)
-					lastIterationTime = time.Now()
 				}
 			}
 		}
-- 
2.43.0


From 8155e7cd426a133298f82c1a85742b4441332bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:43 +0000
Subject: [PATCH 17/18] fix: a panic of a parallel worker crashes the process

---
 core/util.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/util.go b/core/util.go
index ac1e020..face176 100644
--- a/core/util.go
+++ b/core/util.go
@@ -5,14 +5,22 @@ import "sync"
 // PartitionProcess represents a function that runs in parallel over a data partitions
 type PartitionProcess = func(start, end, rank int)
 
-// Par runs a function in parallel over data partitions given data size and degree of parallelism
+// Par runs a function in parallel over data partitions given data size and degree of parallelism.
+// If the function panics, Par panics with the same value once all routines are done.
 func Par(process func(int, int, int), size int, degree int) {
 	var wg = &sync.WaitGroup{}
 	var offset = size / degree
 	var remainder = size % degree
+	var once = &sync.Once{}
+	var failure interface{}
 	wg.Add(degree)
 	var launch = func(start int, end int, rank int) {
 		defer wg.Done()
+		defer func() {
+			if recovery := recover(); recovery != nil {
+				once.Do(func() { failure = recovery })
+			}
+		}()
 		process(start, end, rank)
 	}
 	var start = 0
@@ -28,4 +36,7 @@ func Par(process func(int, int, int), size int, degree int) {
 		start = end
 	}
 	wg.Wait()
+	if failure != nil {
+		panic(failure)
+	}
 }
-- 
2.43.0


From 7db824106af024f6026c455612d40bf7758e2da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:06 +0000
Subject: [PATCH 18/18] fix: DTW without window accepts series of any lengths

---
 dtw/cost.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dtw/cost.go b/dtw/cost.go
index 7f59c2f..bde58b3 100644
--- a/dtw/cost.go
+++ b/dtw/cost.go
@@ -51,6 +51,9 @@ func (cumCost *CumCostMatrix) Path() []Ends {
 func (cumCost *CumCostMatrix) setStride(shortest int, longest int) {
 	if cumCost.window == 0 {
 		cumCost.window = longest
+		if shortest > longest {
+			cumCost.window = shortest
+		}
 	}
 	var maxWindow = 2*cumCost.window + 1
 	cumCost.stride0 = shortest
-- 
2.43.0

