From 3e6fc9e532fb692f97257cfed6a4ca7cfded19d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:34 +0000
Subject: [PATCH 01/57] fix: reassemble RTMP messages per chunk stream

Chunks of messages on different chunk streams may interleave; ParseMessage
appended every chunk to whatever message was being read. An Abort dropped
the header state of the chunk stream instead of the partial message.
---
 librtmp/chunk.go           | 8 ++++++++
 librtmp/control_message.go | 2 +-
 librtmp/message.go         | 8 +++++++-
 librtmp/rtmp.go            | 1 +
 4 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index c5e66c1..1892606 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -175,6 +175,14 @@ func ParseChunk(rtmp *RTMP, message Message) (cp *Chunk, err error) {
 		return nil, err
 	}
 
+	if message == nil {
+		//Chunks of different chunk streams may interleave: continue the
+		//message in flight on this one, if any.
+		if pending, ok := rtmp.pending[basicHeader.CsID]; ok {
+			message = pending
+		}
+	}
+
 	messageHeader, err := parseChunkMessageHeader(rtmp, basicHeader, message == nil)
 	if err != nil {
 		return nil, err
diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index a1dd3a2..1295645 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -279,7 +279,7 @@ func (am *AbortMessage) Parse() (err error) {
 func (am *AbortMessage) Do() error {
 	//Drop any partial message on the indicated chunk stream so the next
 	//chunk on that CSID starts a fresh message.
-	delete(am.rtmp.lastChunk, am.ChunkStreamID)
+	delete(am.rtmp.pending, am.ChunkStreamID)
 	return nil
 }
 
diff --git a/librtmp/message.go b/librtmp/message.go
index f9d56a3..d5e98fa 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -117,11 +117,12 @@ func ParseMessage(rtmp *RTMP) (err error) {
 
 	//read message payload from many chunks
 	for {
-		chunk, err = ParseChunk(rtmp, message)
+		chunk, err = ParseChunk(rtmp, nil)
 		if err != nil {
 			return err
 		}
 
+		message = rtmp.pending[chunk.CsID]
 		if message == nil {
 			mb := MessageBase{
 				rtmp:            rtmp,
@@ -185,8 +186,13 @@ func ParseMessage(rtmp *RTMP) (err error) {
 
 		message.Append(chunk)
 		if message.Done() {
+			delete(rtmp.pending, chunk.CsID)
 			break
 		}
+		if rtmp.pending == nil {
+			rtmp.pending = make(map[uint32]Message)
+		}
+		rtmp.pending[chunk.CsID] = message
 	}
 
 	//Track inbound bytes so we can send Window Acknowledgement messages
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index cc9ffc9..dca45c6 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -12,6 +12,7 @@ type RTMP struct {
 	readerConn       easyio.EasyReader
 	writerConn       easyio.EasyWriter
 	lastChunk        map[uint32]*Chunk //csid
+	pending          map[uint32]Message //csid, message whose chunks are still arriving
 	peerMaxChunkSize uint32
 	ownMaxChunkSize  int
 	peer             string
-- 
2.43.0


From 9abbfee10e6b74296f5ca9a3941529036a4b204b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:11 +0000
Subject: [PATCH 02/57] fix: write three byte chunk stream ids little endian

---
 librtmp/chunk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/librtmp/chunk.go b/librtmp/chunk.go
index 1892606..d481b8c 100644
--- a/librtmp/chunk.go
+++ b/librtmp/chunk.go
@@ -242,7 +242,7 @@ func (chunk *Chunk) Send(rtmp *RTMP) (err error) {
 	} else {
 		b = append(b, uint8(chunk.Fmt<<6)|uint8(0x01))
 		b = append(b, uint8(0), uint8(0))
-		binary.BigEndian.PutUint16(b[len(b)-2:], uint16(chunk.CsID-64))
+		binary.LittleEndian.PutUint16(b[len(b)-2:], uint16(chunk.CsID-64))
 	}
 
 	//For FMT0 we carry an absolute timestamp; for FMT1/FMT2 a delta.
-- 
2.43.0


From c5877452f95e6a3788cba2021b2f32df2ddb1ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:47 +0000
Subject: [PATCH 03/57] fix: deliver streams through a broadcast without lost,
 stale or missing-header reads

The Athena broadcast dropped frames and blocked readers until exactly
three metas had been written, ignored later headers, and woke readers
between Reset and the keyframe so that they read the previous group or
panicked on an empty one.
---
 libbroadcast/broadcast.go  | 185 +++++++++++++++++++++++++++++++++++++
 libdash/dash.go            |   9 +-
 libhls/hls.go              |   9 +-
 librtmp/command_message.go |   2 +-
 librtmp/room.go            |  26 +++++-
 librtmp/rtsp_server.go     |   4 +-
 librtmp/server.go          |   2 +-
 7 files changed, 223 insertions(+), 14 deletions(-)
 create mode 100644 libbroadcast/broadcast.go

diff --git a/libbroadcast/broadcast.go b/libbroadcast/broadcast.go
new file mode 100644
index 0000000..d83fbf5
--- /dev/null
+++ b/libbroadcast/broadcast.go
@@ -0,0 +1,185 @@
+// Package libbroadcast fans one publisher out to many readers, one group
+// of pictures at a time.
+//
+// A reader first gets the metas (headers) in effect when it joins, then
+// the current group from its start, then everything written afterwards in
+// order. A reader that falls more than one group behind is moved forward
+// to the start of the current group; it never sees part of two groups.
+package libbroadcast
+
+import (
+	"reflect"
+	"sync"
+)
+
+type item struct {
+	p      interface{}
+	isMeta bool
+}
+
+type group struct {
+	seq   uint64
+	items []item
+}
+
+type Broadcast struct {
+	c       *sync.Cond
+	metas   []interface{} //in effect, at most one per dynamic type
+	cur     *group
+	pending bool //Reset was called; the next Write opens a new group
+	alive   bool
+}
+
+// NewBroadcast returns an empty broadcast. metaNum is only a size hint:
+// streams without video, audio or metadata are as valid as any other.
+func NewBroadcast(metaNum int) *Broadcast {
+	return &Broadcast{
+		c:     sync.NewCond(&sync.Mutex{}),
+		metas: make([]interface{}, 0, metaNum),
+		cur:   &group{},
+		alive: true,
+	}
+}
+
+// WriteMeta replaces the meta of the same dynamic type and delivers it, in
+// order, to every reader. Writing the meta already in effect does nothing.
+func (bd *Broadcast) WriteMeta(meta interface{}) {
+	bd.c.L.Lock()
+	defer bd.c.L.Unlock()
+
+	if !bd.alive {
+		return
+	}
+	found := false
+	for i, m := range bd.metas {
+		if reflect.TypeOf(m) == reflect.TypeOf(meta) {
+			if same(m, meta) {
+				return
+			}
+			bd.metas[i], found = meta, true
+		}
+	}
+	if !found {
+		bd.metas = append(bd.metas, meta)
+	}
+	bd.cur.items = append(bd.cur.items, item{p: meta, isMeta: true})
+	bd.c.Broadcast()
+}
+
+// Write appends p to the current group, or opens a new group with it when
+// Reset was called before.
+func (bd *Broadcast) Write(p interface{}) {
+	bd.c.L.Lock()
+	defer bd.c.L.Unlock()
+
+	if !bd.alive {
+		return
+	}
+	if bd.pending {
+		bd.cur = &group{seq: bd.cur.seq + 1}
+		bd.pending = false
+	}
+	bd.cur.items = append(bd.cur.items, item{p: p})
+	bd.c.Broadcast()
+}
+
+// Reset makes the next Write start a new group.
+func (bd *Broadcast) Reset() {
+	bd.c.L.Lock()
+	bd.pending = true
+	bd.c.L.Unlock()
+}
+
+// DisAlive ends the stream: readers get what was written and then
+// alive=false.
+func (bd *Broadcast) DisAlive() {
+	bd.c.L.Lock()
+	bd.alive = false
+	bd.c.L.Unlock()
+
+	bd.c.Broadcast()
+}
+
+func same(a, b interface{}) bool {
+	return reflect.TypeOf(a) == reflect.TypeOf(b) && reflect.TypeOf(a).Comparable() && a == b
+}
+
+type BroadcastReader struct {
+	bd     *Broadcast
+	metas  []interface{} //still to be delivered before the group
+	last   []interface{} //metas delivered so far, one per dynamic type
+	g      *group
+	index  int
+	joined int //metas of g before this index were delivered up front
+}
+
+func NewBroadcastReader(bd *Broadcast) *BroadcastReader {
+	bd.c.L.Lock()
+	defer bd.c.L.Unlock()
+
+	r := &BroadcastReader{bd: bd}
+	r.join()
+	return r
+}
+
+// join moves the reader to the start of the current group.
+func (r *BroadcastReader) join() {
+	r.metas = r.metas[:0]
+	for _, m := range r.bd.metas {
+		known := false
+		for _, l := range r.last {
+			known = known || same(l, m)
+		}
+		if !known {
+			r.metas = append(r.metas, m)
+		}
+	}
+	r.g, r.index, r.joined = r.bd.cur, 0, len(r.bd.cur.items)
+}
+
+func (r *BroadcastReader) delivered(meta interface{}) {
+	for i, l := range r.last {
+		if reflect.TypeOf(l) == reflect.TypeOf(meta) {
+			r.last[i] = meta
+			return
+		}
+	}
+	r.last = append(r.last, meta)
+}
+
+func (r *BroadcastReader) Read() (p interface{}, alive bool) {
+	r.bd.c.L.Lock()
+	defer r.bd.c.L.Unlock()
+
+	for {
+		if r.g.seq+1 < r.bd.cur.seq {
+			//read too slowly
+			r.join()
+		}
+		if len(r.metas) > 0 {
+			p = r.metas[0]
+			r.metas = r.metas[1:]
+			r.delivered(p)
+			return p, true
+		}
+		if r.index < len(r.g.items) {
+			it := r.g.items[r.index]
+			r.index++
+			if it.isMeta {
+				if r.index <= r.joined {
+					continue
+				}
+				r.delivered(it.p)
+			}
+			return it.p, true
+		}
+		if r.g != r.bd.cur {
+			r.g, r.index, r.joined = r.bd.cur, 0, 0
+			continue
+		}
+		if !r.bd.alive {
+			return nil, false
+		}
+		r.bd.c.Wait()
+	}
+}
diff --git a/libdash/dash.go b/libdash/dash.go
index 8e2a9c7..424654e 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -21,7 +21,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/libmp4"
 )
@@ -161,10 +160,16 @@ func (d *DASH) stopRequested() bool {
 	return atomic.LoadInt32(&d.stopped) != 0
 }
 
+// TagReader delivers the tags of a stream in order; alive is false once
+// the stream has ended.
+type TagReader interface {
+	Read() (p interface{}, alive bool)
+}
+
 // Start consumes FLV tags from gopReader, batches H.264 samples into
 // fragments and writes them to disk. Returns when the publisher
 // disconnects or Stop is called.
-func (d *DASH) Start(gopReader *broadcast.BroadcastReader) error {
+func (d *DASH) Start(gopReader TagReader) error {
 	if err := os.MkdirAll(d.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", d.dir, err)
 	}
diff --git a/libhls/hls.go b/libhls/hls.go
index 74ec4ae..3dd6888 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -10,7 +10,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libaac"
@@ -286,8 +285,14 @@ func (hls *HLS) stopRequested() bool {
 	return atomic.LoadInt32(&hls.stopped) != 0
 }
 
+// TagReader delivers the tags of a stream in order; alive is false once
+// the stream has ended.
+type TagReader interface {
+	Read() (p interface{}, alive bool)
+}
+
 //start to generate ts segments.
-func (hls *HLS) Start(gopReader *broadcast.BroadcastReader) (err error) {
+func (hls *HLS) Start(gopReader TagReader) (err error) {
 	if err := os.MkdirAll(hls.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", hls.dir, err)
 	}
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index d814d54..d81e65a 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -7,7 +7,7 @@ import (
 	"reflect"
 	"sync/atomic"
 
-	"github.com/SmartBrave/Athena/broadcast"
+	broadcast "github.com/sbraveyoung/GGmpeg/libbroadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libamf"
diff --git a/librtmp/room.go b/librtmp/room.go
index 7300191..a2f5842 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -5,7 +5,7 @@ import (
 	"sync"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
+	broadcast "github.com/sbraveyoung/GGmpeg/libbroadcast"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 )
@@ -40,18 +40,21 @@ func NewRoom(rtmp *RTMP, roomID string) *Room {
 func (room *Room) setVideoSequenceHeader(tag *libflv.VideoTag) {
 	room.mu.Lock()
 	room.videoSeqHdr = tag
+	room.GOP.WriteMeta(tag)
 	room.mu.Unlock()
 }
 
 func (room *Room) setAudioSequenceHeader(tag *libflv.AudioTag) {
 	room.mu.Lock()
 	room.audioSeqHdr = tag
+	room.GOP.WriteMeta(tag)
 	room.mu.Unlock()
 }
 
 func (room *Room) setMeta(tag *libflv.MetaTag) {
 	room.mu.Lock()
 	room.metaTag = tag
+	room.GOP.WriteMeta(tag)
 	room.mu.Unlock()
 }
 
@@ -61,6 +64,15 @@ func (room *Room) snapshotHeaders() (meta *libflv.MetaTag, video *libflv.VideoTa
 	return room.metaTag, room.videoSeqHdr, room.audioSeqHdr
 }
 
+// join returns the cached headers together with a reader that continues
+// exactly after them: the reader delivers the same tags first, so callers
+// skip what they have backfilled already.
+func (room *Room) join() (meta *libflv.MetaTag, video *libflv.VideoTag, audio *libflv.AudioTag, gopReader *broadcast.BroadcastReader) {
+	room.mu.RLock()
+	defer room.mu.RUnlock()
+	return room.metaTag, room.videoSeqHdr, room.audioSeqHdr, broadcast.NewBroadcastReader(room.GOP)
+}
+
 // Close releases the broadcast so every subscriber wakes up with
 // alive=false. Safe to call multiple times.
 func (room *Room) Close() {
@@ -81,7 +93,7 @@ func (room *Room) RTMPJoin(rtmp *RTMP) {
 	go func() {
 		//Backfill sequence headers so a player joining mid-GOP has the
 		//decoder configuration before the first video tag arrives.
-		meta, videoHdr, audioHdr := room.snapshotHeaders()
+		meta, videoHdr, audioHdr, gopReader := room.join()
 		if meta != nil {
 			mb := MessageBase{
 				rtmp:          rtmp,
@@ -111,13 +123,15 @@ func (room *Room) RTMPJoin(rtmp *RTMP) {
 		}
 
 		var err error
-		gopReader := broadcast.NewBroadcastReader(room.GOP)
 		for {
 			p, alive := gopReader.Read()
 			if !alive {
 				fmt.Println("the publisher had been exit.")
 				break
 			}
+			if p == libflv.Tag(meta) || p == libflv.Tag(videoHdr) || p == libflv.Tag(audioHdr) {
+				continue
+			}
 			tag := p.(libflv.Tag)
 			fmt.Printf("read packet from gop, now:%v, tag:%+v\n", time.Now(), tag)
 			mb := MessageBase{
@@ -152,7 +166,7 @@ func (room *Room) FLVJoin(writer easyio.EasyWriter) {
 	}
 
 	//Backfill cached sequence headers for mid-GOP joiners.
-	meta, videoHdr, audioHdr := room.snapshotHeaders()
+	meta, videoHdr, audioHdr, gopReader := room.join()
 	if meta != nil {
 		if err := writer.WriteFull(libflv.FLVWrite(meta)); err != nil {
 			return
@@ -169,13 +183,15 @@ func (room *Room) FLVJoin(writer easyio.EasyWriter) {
 		}
 	}
 
-	gopReader := broadcast.NewBroadcastReader(room.GOP)
 	for {
 		p, alive := gopReader.Read()
 		if !alive {
 			fmt.Println("the publisher had been exit.")
 			return
 		}
+		if p == libflv.Tag(meta) || p == libflv.Tag(videoHdr) || p == libflv.Tag(audioHdr) {
+			continue
+		}
 		if err := writer.WriteFull(libflv.FLVWrite(p.(libflv.Tag))); err != nil {
 			//Client disconnected; bail out of the loop.
 			return
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 53edd91..76c4215 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -11,7 +11,6 @@ import (
 	"sync/atomic"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
 	"github.com/sbraveyoung/GGmpeg/libflv"
 	"github.com/sbraveyoung/GGmpeg/librtsp"
 )
@@ -402,12 +401,11 @@ func (s *rtspSession) streamLoop(room *Room) {
 	//Backfill cached sequence headers as in-band data so any client
 	//that decodes off the wire rather than the SDP fmtp gets the
 	//SPS/PPS too.
-	_, videoHdr, _ := room.snapshotHeaders()
+	_, videoHdr, _, gopReader := room.join()
 	if s.videoChan >= 0 && videoHdr != nil {
 		s.sendVideoSeqHeader(videoHdr)
 	}
 
-	gopReader := broadcast.NewBroadcastReader(room.GOP)
 	for atomic.LoadInt32(&s.playing) == 1 {
 		p, alive := gopReader.Read()
 		if !alive {
diff --git a/librtmp/server.go b/librtmp/server.go
index 0189165..638b828 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -13,7 +13,7 @@ import (
 	"sync"
 	"time"
 
-	"github.com/SmartBrave/Athena/broadcast"
+	broadcast "github.com/sbraveyoung/GGmpeg/libbroadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libdash"
-- 
2.43.0


From 4482a99d207bdbb9e59f6ab40c9f7aded16a198f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 04/57] fix: refuse malformed RTMP control and command messages
 instead of panicking

Short Set Chunk Size and Window Acknowledgement payloads and commands
whose name or transaction id has another AMF type crashed the server; a
chunk size of zero made a connection spin forever; a message that failed
to parse was acted on all the same.
---
 librtmp/command_message.go | 10 ++++++++--
 librtmp/control_message.go | 10 ++++++++++
 librtmp/message.go         |  7 ++++---
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index d81e65a..7795647 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -117,8 +117,14 @@ func (cm *CommandMessage) Parse() (err error) {
 		fmt.Println("index:", index, " a.type:", reflect.TypeOf(a), " a.Value:", reflect.ValueOf(a))
 	}
 
-	cm.CommandName = array[0].(string)
-	cm.TranscationID = int(array[1].(float64))
+	var okName, okTxn bool
+	var txn float64
+	cm.CommandName, okName = array[0].(string)
+	txn, okTxn = array[1].(float64)
+	if !okName || !okTxn {
+		return errors.New("invalid command header")
+	}
+	cm.TranscationID = int(txn)
 	switch cm.CommandName {
 	case CONNECT:
 		_ = array[2]
diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index 1295645..d0e17ee 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -44,6 +44,9 @@ func (wasm *WindowAcknowledgeSizeMessage) Send() (err error) {
 }
 
 func (wasm *WindowAcknowledgeSizeMessage) Parse() (err error) {
+	if len(wasm.messagePayload) < 4 {
+		return fmt.Errorf("WindowAcknowledgeSize payload too short: %d", len(wasm.messagePayload))
+	}
 	wasm.AcknowledgementWindowSize = binary.BigEndian.Uint32(wasm.messagePayload)
 	fmt.Println("windowAcknowledgeSize:", wasm.AcknowledgementWindowSize)
 	return nil
@@ -232,12 +235,19 @@ func (scsm *SetChunkSizeMessage) Send() error {
 }
 
 func (scsm *SetChunkSizeMessage) Parse() (err error) {
+	if len(scsm.messagePayload) < 4 {
+		return fmt.Errorf("SetChunkSize payload too short: %d", len(scsm.messagePayload))
+	}
 	scsm.NewChunkSize = binary.BigEndian.Uint32(scsm.messagePayload)
 	fmt.Println("new chunk size of peer::", scsm.NewChunkSize)
 	return nil
 }
 
 func (scsm *SetChunkSizeMessage) Do() error {
+	if scsm.NewChunkSize == 0 {
+		//no chunk could carry any payload: nothing would ever complete.
+		return fmt.Errorf("invalid chunk size: 0")
+	}
 	scsm.rtmp.peerMaxChunkSize = scsm.NewChunkSize
 	return nil
 }
diff --git a/librtmp/message.go b/librtmp/message.go
index d5e98fa..6b274c7 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -4,7 +4,6 @@ import (
 	"fmt"
 
 	"github.com/sbraveyoung/GGmpeg/libamf"
-	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/pkg/errors"
 )
 
@@ -131,7 +130,6 @@ func ParseMessage(rtmp *RTMP) (err error) {
 				messageType:     chunk.MessageType,
 				messageStreamID: chunk.MessageStreamID,
 				amf:             libamf.AMF0,
-				messagePayload:  make([]byte, 0, chunk.MessageLength),
 			}
 
 			switch chunk.MessageType {
@@ -207,7 +205,10 @@ func ParseMessage(rtmp *RTMP) (err error) {
 		}
 	}
 
-	return easyerrors.HandleMultiError(easyerrors.Simple(), message.Parse(), message.Do())
+	if err = message.Parse(); err != nil {
+		return err
+	}
+	return message.Do()
 }
 
 // DiscardMessage consumes (and drops) a message whose type we don't
-- 
2.43.0


From f271e5e3628e7c721fafa927f44be0a52f68ed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:23 +0000
Subject: [PATCH 05/57] fix: give every stream name exactly one owner and
 release it when that owner leaves

Publishers checked and stored a name in two steps, so two could own it;
a connection could publish or play twice and leak the first room; a
departing publisher removed whatever room had its name by then; players
could write into the stream they watch; closing a stream had no effect;
an announced but never recorded stream was never removed and segmenters
could be started twice for one room.
---
 libbroadcast/broadcast.go  | 12 ++++++++
 librtmp/app.go             | 60 ++++++++++++++++++++++++++++++++++++++
 librtmp/audio.go           |  2 +-
 librtmp/client.go          |  8 ++---
 librtmp/command_message.go | 46 ++++++++++++++++++-----------
 librtmp/data_message.go    |  2 +-
 librtmp/room.go            |  7 ++++-
 librtmp/rtmp.go            | 30 +++++++++++++++++--
 librtmp/rtsp_ingest.go     | 19 +++++++++---
 librtmp/rtsp_server.go     |  6 ++++
 librtmp/server.go          | 16 +++++-----
 librtmp/srt_server.go      |  9 +++---
 librtmp/video.go           |  2 +-
 13 files changed, 175 insertions(+), 44 deletions(-)

diff --git a/libbroadcast/broadcast.go b/libbroadcast/broadcast.go
index d83fbf5..eeb5dd0 100644
--- a/libbroadcast/broadcast.go
+++ b/libbroadcast/broadcast.go
@@ -111,6 +111,7 @@ type BroadcastReader struct {
 	g      *group
 	index  int
 	joined int //metas of g before this index were delivered up front
+	closed bool
 }
 
 func NewBroadcastReader(bd *Broadcast) *BroadcastReader {
@@ -122,6 +123,14 @@ func NewBroadcastReader(bd *Broadcast) *BroadcastReader {
 	return r
 }
 
+// Close makes pending and later Reads return alive=false.
+func (r *BroadcastReader) Close() {
+	r.bd.c.L.Lock()
+	r.closed = true
+	r.bd.c.L.Unlock()
+	r.bd.c.Broadcast()
+}
+
 // join moves the reader to the start of the current group.
 func (r *BroadcastReader) join() {
 	r.metas = r.metas[:0]
@@ -152,6 +161,9 @@ func (r *BroadcastReader) Read() (p interface{}, alive bool) {
 	defer r.bd.c.L.Unlock()
 
 	for {
+		if r.closed {
+			return nil, false
+		}
 		if r.g.seq+1 < r.bd.cur.seq {
 			//read too slowly
 			r.join()
diff --git a/librtmp/app.go b/librtmp/app.go
index b336523..51081e3 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -3,6 +3,7 @@ package librtmp
 import (
 	"sync"
 
+	broadcast "github.com/sbraveyoung/GGmpeg/libbroadcast"
 	"github.com/sbraveyoung/GGmpeg/libdash"
 	"github.com/sbraveyoung/GGmpeg/libhls"
 )
@@ -16,6 +17,8 @@ type App struct {
 	dashEnabled bool
 	dashDir     string
 	dash        *sync.Map //roomID, *libdash.DASH
+
+	mu sync.Mutex //orders claiming, segmenting and releasing of rooms
 }
 
 func NewApp(appName string) *App {
@@ -42,6 +45,63 @@ func (app *App) Store(roomID string, room *Room) {
 	app.rooms.Store(roomID, room)
 }
 
+// Claim makes room the one owner of its name. It fails while any other
+// ingest owns that name.
+func (app *App) Claim(room *Room) bool {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if app.Load(room.RoomID) != nil {
+		return false
+	}
+	room.app = app
+	app.Store(room.RoomID, room)
+	return true
+}
+
+// Release ends the room and frees its name, unless the name meanwhile
+// belongs to another room.
+func (app *App) Release(room *Room) {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if app.Load(room.RoomID) == room {
+		app.Delete(room.RoomID)
+	}
+	room.Close()
+}
+
+// startHLS returns the room's segmenter, started on first use, or nil when
+// the room has been released.
+func (app *App) startHLS(room *Room) *libhls.HLS {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if app.Load(room.RoomID) != room {
+		return nil
+	}
+	if hls := app.LoadHLS(room.RoomID); hls != nil {
+		return hls
+	}
+	hls := libhls.NewHls().WithStreamID(room.RoomID).WithDir(app.hlsDir)
+	app.StoreHLS(room.RoomID, hls)
+	go hls.Start(broadcast.NewBroadcastReader(room.GOP))
+	return hls
+}
+
+// startDASH is startHLS for DASH.
+func (app *App) startDASH(room *Room) *libdash.DASH {
+	app.mu.Lock()
+	defer app.mu.Unlock()
+	if app.Load(room.RoomID) != room {
+		return nil
+	}
+	if dash := app.LoadDASH(room.RoomID); dash != nil {
+		return dash
+	}
+	dash := libdash.NewDASH().WithStreamID(room.RoomID).WithDir(app.dashDir)
+	app.StoreDASH(room.RoomID, dash)
+	go dash.Start(broadcast.NewBroadcastReader(room.GOP))
+	return dash
+}
+
 func (app *App) Delete(roomID string) {
 	if h, ok := app.hls.LoadAndDelete(roomID); ok {
 		if hls, ok := h.(*libhls.HLS); ok {
diff --git a/librtmp/audio.go b/librtmp/audio.go
index 86957fc..ebc4cae 100644
--- a/librtmp/audio.go
+++ b/librtmp/audio.go
@@ -81,7 +81,7 @@ func (am *AudioMessage) Parse() (err error) {
 }
 
 func (am *AudioMessage) Do() (err error) {
-	if am.rtmp.room == nil {
+	if am.rtmp.room == nil || am.rtmp.role == rolePlayer {
 		return nil
 	}
 	if am.audioTag.SoundFormat == libflv.FLV_AUDIO_AAC && am.audioTag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
diff --git a/librtmp/client.go b/librtmp/client.go
index 8f0f29b..771b46c 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -59,13 +59,13 @@ func (pc *PullClient) Run() error {
 		_ = conn.Close()
 		return fmt.Errorf("local app %q not configured", pc.spec.app)
 	}
-	if existing := app.Load(pc.spec.streamID); existing != nil {
+	rtmp.app = pc.spec.app
+	room := NewRoom(rtmp, pc.spec.streamID)
+	if !app.Claim(room) {
 		_ = conn.Close()
 		return fmt.Errorf("local stream %q already publishing", pc.spec.streamID)
 	}
-	rtmp.app = pc.spec.app
-	rtmp.room = NewRoom(rtmp, pc.spec.streamID)
-	app.Store(pc.spec.streamID, rtmp.room)
+	rtmp.room = room
 	//We act as publisher into the local broadcast — when the upstream
 	//disconnects, cleanup() should tear the local room down so HLS /
 	//FLV viewers exit cleanly.
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index 7795647..b4af587 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -7,11 +7,9 @@ import (
 	"reflect"
 	"sync/atomic"
 
-	broadcast "github.com/sbraveyoung/GGmpeg/libbroadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libamf"
-	"github.com/sbraveyoung/GGmpeg/libdash"
 	"github.com/sbraveyoung/GGmpeg/libhls"
 	"github.com/fatih/structs"
 	"github.com/goinggo/mapstructure"
@@ -217,6 +215,9 @@ func (cm *CommandMessage) Do() (err error) {
 		}).Send()
 
 	case FCUNPUBLISH:
+		if cm.rtmp.role == rolePublisher && cm.rtmp.room.RoomID == cm.PublishingName {
+			cm.rtmp.cleanup()
+		}
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
 			CommandName:     cm.CommandName,
@@ -245,9 +246,11 @@ func (cm *CommandMessage) Do() (err error) {
 		if !ok {
 			return errors.Errorf("app not found: %s", cm.rtmp.app)
 		}
-		if existing := app.Load(cm.PublishingName); existing != nil {
+		room := NewRoom(cm.rtmp, cm.PublishingName)
+		if cm.rtmp.room != nil || !app.Claim(room) {
 			//Refuse a second publish to the same stream — replacing the
-			//publisher mid-stream would desync every viewer.
+			//publisher mid-stream would desync every viewer. A connection
+			//carries one stream at a time.
 			return (&CommandMessageResponse{
 				MessageBase:     cm.MessageBase,
 				CommandName:     cm.CommandName,
@@ -260,9 +263,8 @@ func (cm *CommandMessage) Do() (err error) {
 				},
 			}).Send()
 		}
-		cm.rtmp.room = NewRoom(cm.rtmp, cm.PublishingName)
+		cm.rtmp.room = room
 		cm.rtmp.role = rolePublisher
-		app.Store(cm.PublishingName, cm.rtmp.room)
 
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
@@ -277,14 +279,10 @@ func (cm *CommandMessage) Do() (err error) {
 		}).Send()
 
 		if app.hlsMode == libhls.IMMEDIATELY {
-			hls := libhls.NewHls().WithStreamID(cm.PublishingName).WithDir(app.hlsDir)
-			app.hls.Store(cm.PublishingName, hls)
-			go hls.Start(broadcast.NewBroadcastReader(cm.rtmp.room.GOP))
+			app.startHLS(cm.rtmp.room)
 		}
 		if app.dashEnabled {
-			dash := libdash.NewDASH().WithStreamID(cm.PublishingName).WithDir(app.dashDir)
-			app.StoreDASH(cm.PublishingName, dash)
-			go dash.Start(broadcast.NewBroadcastReader(cm.rtmp.room.GOP))
+			app.startDASH(cm.rtmp.room)
 		}
 
 	case PLAY:
@@ -292,8 +290,21 @@ func (cm *CommandMessage) Do() (err error) {
 		if !ok {
 			return errors.Errorf("app not found: %s", cm.rtmp.app)
 		}
-		cm.rtmp.room = app.Load(cm.PublishingName)
-		if cm.rtmp.room == nil {
+		if cm.rtmp.role == rolePublisher {
+			return (&CommandMessageResponse{
+				MessageBase:     cm.MessageBase,
+				CommandName:     cm.CommandName,
+				CommandRespName: ON_STATUS,
+				TranscationID:   cm.TranscationID,
+				CommandObject: ConnectRespCommandObject{
+					Level:       "error",
+					Code:        "NetStream.Play.Failed",
+					Description: "Connection is publishing",
+				},
+			}).Send()
+		}
+		room := app.Load(cm.PublishingName)
+		if room == nil {
 			return (&CommandMessageResponse{
 				MessageBase:     cm.MessageBase,
 				CommandName:     cm.CommandName,
@@ -306,6 +317,8 @@ func (cm *CommandMessage) Do() (err error) {
 				},
 			}).Send()
 		}
+		cm.rtmp.stopPlaying()
+		cm.rtmp.room = room
 		cm.rtmp.role = rolePlayer
 		cm.rtmp.room.RTMPJoin(cm.rtmp)
 
@@ -400,9 +413,8 @@ func (cm *CommandMessage) Do() (err error) {
 
 	case DELETE_STREAM, CLOSE_STREAM:
 		//Stream close emitted by OBS when the user stops streaming.
-		//We rely on cleanup() in HandlerServer for the actual teardown;
-		//here we just reply with a status update so the client can
-		//proceed to disconnect.
+		//The stream ends here; the connection may carry another one.
+		cm.rtmp.cleanup()
 		err = (&CommandMessageResponse{
 			MessageBase:     cm.MessageBase,
 			CommandName:     cm.CommandName,
diff --git a/librtmp/data_message.go b/librtmp/data_message.go
index 9cb28d8..bc52b21 100644
--- a/librtmp/data_message.go
+++ b/librtmp/data_message.go
@@ -64,7 +64,7 @@ func (dm *DataMessage) Parse() (err error) {
 }
 
 func (dm *DataMessage) Do() (err error) {
-	if dm.rtmp.room == nil {
+	if dm.rtmp.room == nil || dm.rtmp.role == rolePlayer {
 		return nil
 	}
 	dm.rtmp.room.setMeta(dm.metaTag)
diff --git a/librtmp/room.go b/librtmp/room.go
index a2f5842..c8aa799 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -14,6 +14,7 @@ type Room struct {
 	RoomID    string
 	Publisher *RTMP
 	GOP       *broadcast.Broadcast
+	app       *App //set while the room owns its name there
 
 	// Cached sequence headers. Populated by the publisher the first
 	// time it emits them and replayed to every new subscriber before
@@ -90,10 +91,14 @@ func (room *Room) Close() {
 
 //player join the room
 func (room *Room) RTMPJoin(rtmp *RTMP) {
+	rtmp.stopPlaying()
+	meta, videoHdr, audioHdr, gopReader := room.join()
+	done := make(chan struct{})
+	rtmp.player, rtmp.playerDone = gopReader, done
 	go func() {
+		defer close(done)
 		//Backfill sequence headers so a player joining mid-GOP has the
 		//decoder configuration before the first video tag arrives.
-		meta, videoHdr, audioHdr, gopReader := room.join()
 		if meta != nil {
 			mb := MessageBase{
 				rtmp:          rtmp,
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index dca45c6..0fc69ef 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -6,6 +6,7 @@ import (
 	"net"
 
 	"github.com/SmartBrave/Athena/easyio"
+	broadcast "github.com/sbraveyoung/GGmpeg/libbroadcast"
 )
 
 type RTMP struct {
@@ -21,6 +22,9 @@ type RTMP struct {
 	server           *server
 	playType         string
 	role             connRole
+	conn             net.Conn //closed when the session ends
+	player           *broadcast.BroadcastReader //set while playing
+	playerDone       chan struct{}              //closed once the player goroutine has ended
 
 	// Peer-advertised flow control state.
 	peerWindowAckSize  uint32
@@ -61,12 +65,14 @@ func NewRTMP(conn net.Conn, peer string, server *server) (rtmp *RTMP) {
 		ownMaxChunkSize:  128,
 		peer:             peer,
 		server:           server,
+		conn:             conn,
 		ownWindowAckSize: 2500000,
 	}
 }
 
 func (rtmp *RTMP) HandlerServer() {
 	defer rtmp.cleanup()
+	defer rtmp.closeConn()
 
 	err := HandshakeServer(rtmp)
 	if err != nil {
@@ -101,12 +107,31 @@ func (rtmp *RTMP) cleanup() {
 		return
 	}
 	if rtmp.role == rolePublisher {
-		if app, ok := rtmp.server.apps[rtmp.app]; ok {
-			app.Delete(rtmp.room.RoomID)
+		if rtmp.room.app != nil {
+			rtmp.room.app.Release(rtmp.room)
 		}
 		rtmp.room.Close()
 	}
+	rtmp.stopPlaying()
 	rtmp.room = nil
+	rtmp.role = roleUnknown
+}
+
+func (rtmp *RTMP) closeConn() {
+	if rtmp.conn != nil {
+		_ = rtmp.conn.Close()
+	}
+}
+
+// stopPlaying ends what room.RTMPJoin started and waits until it writes
+// nothing more to the connection.
+func (rtmp *RTMP) stopPlaying() {
+	if rtmp.player == nil {
+		return
+	}
+	rtmp.player.Close()
+	<-rtmp.playerDone
+	rtmp.player = nil
 }
 
 // HandlerClient connects outbound: handshakes as client, sends
@@ -116,6 +141,7 @@ func (rtmp *RTMP) cleanup() {
 // DASH, RTSP) re-stream them just like a local publish.
 func (rtmp *RTMP) HandlerClient() {
 	defer rtmp.cleanup()
+	defer rtmp.closeConn()
 
 	if err := HandshakeClient(rtmp); err != nil {
 		fmt.Println("client handshake error:", err)
diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 0869d36..c5f04db 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -16,6 +16,7 @@ import (
 // rtspSession when the publish flow kicks off.
 type rtspIngest struct {
 	parsed  *librtsp.ParsedSDP
+	room    *Room //outlives publishRTMP.room, which cleanup drops
 	videoCh int //RTSP interleave channel (RTP), -1 if not negotiated
 	audioCh int
 	videoRA *librtsp.H264Reassembler
@@ -41,6 +42,11 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		resp.Reason = "Not Found"
 		return resp
 	}
+	if s.publishRTMP != nil {
+		resp.StatusCode = 455
+		resp.Reason = "Method Not Valid In This State"
+		return resp
+	}
 	if a.Load(room) != nil {
 		resp.StatusCode = 461
 		resp.Reason = "Stream Already Publishing"
@@ -64,11 +70,16 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		app:    app,
 	}
 	rtmp.room = NewRoom(rtmp, room)
-	a.Store(room, rtmp.room)
+	if !a.Claim(rtmp.room) {
+		resp.StatusCode = 461
+		resp.Reason = "Stream Already Publishing"
+		return resp
+	}
 
 	s.app, s.streamID = app, room
 	s.ingest = &rtspIngest{
 		parsed:  parsed,
+		room:    rtmp.room,
 		videoCh: -1,
 		audioCh: -1,
 		videoRA: &librtsp.H264Reassembler{},
@@ -266,9 +277,9 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 	}
 	vt.DataSize = uint32(len(vt.Data()))
 	if frameType == libflv.KEY_FRAME {
-		s.publishRTMP.room.GOP.Reset()
+		s.ingest.room.GOP.Reset()
 	}
-	s.publishRTMP.room.GOP.Write(vt)
+	s.ingest.room.GOP.Write(vt)
 }
 
 func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
@@ -293,7 +304,7 @@ func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
 			SoundData:     frame,
 		}
 		at.DataSize = uint32(len(at.Data()))
-		s.publishRTMP.room.GOP.Write(at)
+		s.ingest.room.GOP.Write(at)
 	}
 }
 
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 76c4215..470a209 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -83,6 +83,12 @@ func newRTSPSession(conn net.Conn, srv *server) *rtspSession {
 // or PLAY's goroutine reports a write failure.
 func (s *rtspSession) run() {
 	defer s.conn.Close()
+	defer func() {
+		//announced, but never recorded
+		if s.publishRTMP != nil {
+			s.publishRTMP.cleanup()
+		}
+	}()
 	for {
 		req, err := librtsp.ReadRequest(s.br)
 		if err != nil {
diff --git a/librtmp/server.go b/librtmp/server.go
index 638b828..7f27c2d 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -13,7 +13,6 @@ import (
 	"sync"
 	"time"
 
-	broadcast "github.com/sbraveyoung/GGmpeg/libbroadcast"
 	"github.com/SmartBrave/Athena/easyerrors"
 	"github.com/SmartBrave/Athena/easyio"
 	"github.com/sbraveyoung/GGmpeg/libdash"
@@ -361,9 +360,11 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			//hit so no-one is paying for HLS segmentation when no viewer
 			//is attached.
 			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
-				hls = libhls.NewHls().WithStreamID(roomID).WithDir(app.hlsDir)
-				app.StoreHLS(roomID, hls)
-				go hls.Start(broadcast.NewBroadcastReader(room.GOP))
+				hls = app.startHLS(room)
+				if hls == nil {
+					w.WriteHeader(http.StatusNotFound)
+					return
+				}
 				hls.WaitFirstSegment()
 			} else {
 				w.WriteHeader(http.StatusNotFound)
@@ -379,10 +380,9 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			strings.HasSuffix(file, ".m4s"):
 			dash := app.LoadDASH(roomID)
 			if dash == nil && app.dashEnabled {
-				dash = libdash.NewDASH().WithStreamID(roomID).WithDir(app.dashDir)
-				app.StoreDASH(roomID, dash)
-				go dash.Start(broadcast.NewBroadcastReader(room.GOP))
-				dash.WaitFirstSegment()
+				if dash = app.startDASH(room); dash != nil {
+					dash.WaitFirstSegment()
+				}
 			}
 			if dash == nil {
 				w.WriteHeader(http.StatusNotFound)
diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 9f2c329..b0b6164 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -75,10 +75,6 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 			br.mu.Unlock()
 			return fmt.Errorf("srt: app %q missing", br.spec.app)
 		}
-		if app.Load(br.spec.streamID) != nil {
-			br.mu.Unlock()
-			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
-		}
 		//Pseudo-publisher RTMP struct so cleanup paths match.
 		ps := &RTMP{
 			peer:   "srt://" + br.spec.address,
@@ -87,8 +83,11 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 			app:    br.spec.app,
 		}
 		ps.room = NewRoom(ps, br.spec.streamID)
+		if !app.Claim(ps.room) {
+			br.mu.Unlock()
+			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
+		}
 		br.room = ps.room
-		app.Store(br.spec.streamID, br.room)
 	}
 	br.mu.Unlock()
 	br.demux.Feed(payload)
diff --git a/librtmp/video.go b/librtmp/video.go
index 5ec3ad6..fdbcad4 100644
--- a/librtmp/video.go
+++ b/librtmp/video.go
@@ -82,7 +82,7 @@ func (vm *VideoMessage) Parse() (err error) {
 }
 
 func (vm *VideoMessage) Do() (err error) {
-	if vm.rtmp.room == nil {
+	if vm.rtmp.room == nil || vm.rtmp.role == rolePlayer {
 		return nil
 	}
 	if vm.videoTag.FrameType == libflv.KEY_FRAME {
-- 
2.43.0


From 2fd282d22c87c9b7b7170755a31de4c82f5f4af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 06/57] fix: segment streams that arrive over RTSP, SRT and
 RTMP pull too

---
 librtmp/app.go         | 11 +++++++++++
 librtmp/client.go      |  1 +
 librtmp/rtsp_ingest.go |  2 ++
 librtmp/srt_server.go  |  1 +
 4 files changed, 15 insertions(+)

diff --git a/librtmp/app.go b/librtmp/app.go
index 51081e3..f9e30ef 100644
--- a/librtmp/app.go
+++ b/librtmp/app.go
@@ -102,6 +102,17 @@ func (app *App) startDASH(room *Room) *libdash.DASH {
 	return dash
 }
 
+// startSegmenters starts what the app runs for every stream from its
+// beginning.
+func (app *App) startSegmenters(room *Room) {
+	if app.hlsMode == libhls.IMMEDIATELY {
+		app.startHLS(room)
+	}
+	if app.dashEnabled {
+		app.startDASH(room)
+	}
+}
+
 func (app *App) Delete(roomID string) {
 	if h, ok := app.hls.LoadAndDelete(roomID); ok {
 		if hls, ok := h.(*libhls.HLS); ok {
diff --git a/librtmp/client.go b/librtmp/client.go
index 771b46c..977553e 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -66,6 +66,7 @@ func (pc *PullClient) Run() error {
 		return fmt.Errorf("local stream %q already publishing", pc.spec.streamID)
 	}
 	rtmp.room = room
+	app.startSegmenters(room)
 	//We act as publisher into the local broadcast — when the upstream
 	//disconnects, cleanup() should tear the local room down so HLS /
 	//FLV viewers exit cleanly.
diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index c5f04db..a909df9 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -76,6 +76,8 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		return resp
 	}
 
+	a.startSegmenters(rtmp.room)
+
 	s.app, s.streamID = app, room
 	s.ingest = &rtspIngest{
 		parsed:  parsed,
diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index b0b6164..a27ac79 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -88,6 +88,7 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 			return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
 		}
 		br.room = ps.room
+		app.startSegmenters(br.room)
 	}
 	br.mu.Unlock()
 	br.demux.Feed(payload)
-- 
2.43.0


From a0dc53fd4088bb44e33acab37b668d6397e43cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:06 +0000
Subject: [PATCH 07/57] fix: decode AMF0 objects and arrays to their end and
 encode every accepted value

---
 libamf/amf0.go | 94 ++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 80 insertions(+), 14 deletions(-)

diff --git a/libamf/amf0.go b/libamf/amf0.go
index d58787c..6e176e7 100644
--- a/libamf/amf0.go
+++ b/libamf/amf0.go
@@ -1,10 +1,12 @@
 package libamf
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"reflect"
 	"time"
 
@@ -39,10 +41,22 @@ type amf0 struct{}
 
 var AMF0 amf0
 
+//maxDepth bounds how deep values nest, so that a peer cannot exhaust the stack.
+const maxDepth = 512
+
+var errTooDeep = errors.New("amf0 value nested too deep")
+
+//nestedReader counts the values being decoded around the current one.
+type nestedReader struct {
+	easyio.EasyReader
+	depth int
+}
+
 func (amf0) Decode(r easyio.EasyReader) (res []interface{}, err error) {
 	var referenceIndex []int
 	var i interface{}
 	var marker Marker
+	r = &nestedReader{EasyReader: r}
 	for {
 		marker, i, err = decodeamf0(r)
 		if err == io.EOF {
@@ -77,6 +91,20 @@ func decodeamf0(r easyio.EasyReader) (marker Marker, i interface{}, err error) {
 		return InvalidMarker, nil, err
 	}
 
+	if nr, ok := r.(*nestedReader); ok {
+		nr.depth++
+		defer func() { nr.depth-- }()
+		if nr.depth > maxDepth {
+			return InvalidMarker, nil, errTooDeep
+		}
+	}
+	//The sequence may end before a marker, but not within a value.
+	defer func() {
+		if err == io.EOF {
+			err = io.ErrUnexpectedEOF
+		}
+	}()
+
 	marker = Marker(b[0])
 	switch marker {
 	case NumberMarker:
@@ -156,11 +184,12 @@ func decodeLongStringamf0(r easyio.EasyReader) (str string, err error) {
 
 //TODO: utf-8 support
 func readByteamf0(r easyio.EasyReader, length uint32) (b []byte, err error) {
-	b, err = r.ReadN(uint32(length))
-	if err != nil {
+	//The length comes from the peer: do not allocate more than there is.
+	buf := &bytes.Buffer{}
+	if _, err = io.CopyN(buf, r, int64(length)); err != nil {
 		return nil, err
 	}
-	return b, nil
+	return buf.Bytes(), nil
 }
 
 func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err error) {
@@ -171,7 +200,7 @@ func decodeObjectamf0(r easyio.EasyReader) (res map[string]interface{}, err erro
 		if err != nil {
 			return res, err
 		}
-		if p.key == "" {
+		if p.end {
 			break
 		}
 		res[p.key] = p.value
@@ -192,6 +221,7 @@ func decodeTypedObjectamf0(r easyio.EasyReader) (className string, res map[strin
 type pair struct {
 	key   string
 	value interface{}
+	end   bool //the empty key and end marker that close an object
 }
 
 func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
@@ -200,14 +230,13 @@ func readPairamf0(r easyio.EasyReader) (p *pair, err error) {
 	if err != nil {
 		return p, err
 	}
-	if p.key == "" {
-		return p, nil
-	}
 
-	_, p.value, err = decodeamf0(r)
+	var marker Marker
+	marker, p.value, err = decodeamf0(r)
 	if err != nil {
 		return p, err
 	}
+	p.end = p.key == "" && marker == ObjectEndMarker
 	return p, nil
 }
 
@@ -224,14 +253,13 @@ func decodeEcmaArrayamf0(r easyio.EasyReader) (res map[string]interface{}, err e
 	}
 
 	res = make(map[string]interface{})
-	var i uint32
 	var p *pair
-	for i = 0; i <= length; i++ { //length: 00 00 09
+	for { //length is only a hint, 00 00 09 ends the array
 		p, err = readPairamf0(r)
 		if err != nil {
 			return res, err
 		}
-		if p.key == "" {
+		if p.end {
 			break
 		}
 		res[p.key] = p.value
@@ -271,7 +299,8 @@ func decodeDateamf0(r easyio.EasyReader) (date time.Time, err error) {
 		return time.Unix(0, 0), err
 	}
 
-	return time.Unix(0, int64(timestamp)*1e6), nil
+	ms, frac := math.Modf(timestamp)
+	return time.UnixMilli(int64(ms)).Add(time.Duration(frac * 1e6)), nil
 }
 
 func decodeXMLDocumentamf0(r easyio.EasyReader) (xml []byte, err error) {
@@ -314,6 +343,11 @@ func encodeamf0(w easyio.EasyWriter, obj interface{}, encodeMarker bool) (err er
 	case reflect.String:
 		err = encodeStringamf0(w, v.String(), encodeMarker)
 	case reflect.Struct: //TODO: has some problem
+		date, ok := obj.(time.Time)
+		if !ok {
+			return errors.New("invalid type")
+		}
+		err = encodeDateamf0(w, date, encodeMarker)
 	//TODO: XMLDocumentMarker
 	//TODO: DateMarker
 	//TypedObjectMarker
@@ -332,7 +366,10 @@ func encodeamf0(w easyio.EasyWriter, obj interface{}, encodeMarker bool) (err er
 	case reflect.Map: //ObjectMarker
 		err = encodeObjectamf0(w, v, encodeMarker)
 	case reflect.Ptr, reflect.Interface:
-		err = encodeamf0(w, v.Elem(), encodeMarker)
+		if v.IsNil() {
+			return encodeamf0(w, nil, encodeMarker)
+		}
+		err = encodeamf0(w, v.Elem().Interface(), encodeMarker)
 		if err != nil {
 			return err
 		}
@@ -351,8 +388,9 @@ func encodeamf0(w easyio.EasyWriter, obj interface{}, encodeMarker bool) (err er
 		// }
 		// }
 		// binary.Write(w, binary.BigEndian, ObjectEndMarker)
+		err = encodeStrictArrayamf0(w, v, encodeMarker)
 	default:
-		//TODO
+		return errors.New("invalid type")
 	}
 	return err
 }
@@ -404,6 +442,9 @@ func encodeObjectamf0(w easyio.EasyWriter, obj reflect.Value, encodeMarker bool)
 		if key.Kind() != reflect.String {
 			return errors.New("invalid type")
 		}
+		if len(key.String()) > 0xffff {
+			return errors.New("invalid key")
+		}
 		err = encodeamf0(w, key.String(), false)
 		if err != nil {
 			return err
@@ -418,3 +459,28 @@ func encodeObjectamf0(w easyio.EasyWriter, obj reflect.Value, encodeMarker bool)
 	err3 = binary.Write(w, binary.BigEndian, ObjectEndMarker)
 	return easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2, err3)
 }
+
+func encodeStrictArrayamf0(w easyio.EasyWriter, array reflect.Value, encodeMarker bool) (err error) {
+	var err1, err2 error
+	if encodeMarker {
+		err1 = binary.Write(w, binary.BigEndian, StrictArrayMarker)
+	}
+	err2 = binary.Write(w, binary.BigEndian, uint32(array.Len()))
+	for i := 0; i < array.Len(); i++ {
+		err = encodeamf0(w, array.Index(i).Interface(), true)
+		if err != nil {
+			return err
+		}
+	}
+	return easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2)
+}
+
+func encodeDateamf0(w easyio.EasyWriter, date time.Time, encodeMarker bool) (err error) {
+	var err1, err2, err3 error
+	if encodeMarker {
+		err1 = binary.Write(w, binary.BigEndian, DateMarker)
+	}
+	err2 = encodeNumberamf0(w, float64(date.UnixMicro())/1e3, false)
+	err3 = binary.Write(w, binary.BigEndian, int16(0)) //time zone, always zero
+	return easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2, err3)
+}
-- 
2.43.0


From 23c439fa959487cca291bcbb5d09ec2b21aa9e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:46 +0000
Subject: [PATCH 08/57] fix: forward stream metadata exactly as the publisher
 sent it

---
 libflv/meta.go          | 29 ++++++++++++++++++++++-------
 librtmp/data_message.go |  6 ++++++
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/libflv/meta.go b/libflv/meta.go
index f8c299f..1faaf0d 100644
--- a/libflv/meta.go
+++ b/libflv/meta.go
@@ -15,6 +15,7 @@ import (
 
 type MetaTag struct {
 	TagBase         `structs:"-"`
+	raw             []byte  //the tag body as received
 	FirstField      string  `structs:"-"`
 	SecondField     string  `structs:"-"`
 	AudioChannels   string  `mapstructure:"audiochannels" structs:"audiochannels"`
@@ -48,7 +49,7 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 		return nil, err
 	}
 
-	meta = &MetaTag{TagBase: tb}
+	meta = &MetaTag{TagBase: tb, raw: b}
 	//Publishers emit data messages in two shapes:
 	//  - [string "onMetaData", ecma-array]
 	//  - [string "@setDataFrame", string "onMetaData", ecma-array]
@@ -56,7 +57,12 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 	//and the properties array in the last slot.
 	var props interface{}
 	switch {
-	case len(array) >= 3:
+	case len(array) >= 3 && array[0] == "@setDataFrame":
+		//Drop the command verb: marker, length and text of the first string.
+		meta.raw = b[3+len("@setDataFrame"):]
+		if b[0] == byte(libamf.LongStringMarker) {
+			meta.raw = meta.raw[2:]
+		}
 		if s, ok := array[0].(string); ok {
 			meta.FirstField = s
 		}
@@ -64,7 +70,7 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 			meta.SecondField = s
 		}
 		props = array[2]
-	case len(array) == 2:
+	case len(array) >= 2:
 		if s, ok := array[0].(string); ok {
 			meta.SecondField = s
 		}
@@ -74,20 +80,29 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 	}
 
 	if props != nil {
-		if err = mapstructure.Decode(props, meta); err != nil {
+		//The fields are a convenience: properties of another type than
+		//expected are legal and still forwarded.
+		fields := *meta
+		if err := mapstructure.Decode(props, &fields); err != nil {
 			fmt.Printf("decode data error, err:%+v\n", err)
-			err = errors.Wrap(err, "mapstructure.Decode data")
 		}
+		fields.TagBase, fields.raw = meta.TagBase, meta.raw
+		fields.FirstField, fields.SecondField = meta.FirstField, meta.SecondField
+		meta = &fields
 	}
-	return meta, err
+	return meta, nil
 }
 
 // Marshal serialises the metadata tag body in the form FLV players
 // expect: two AMF0 elements — the string "onMetaData" followed by the
 // ECMA array of properties. (RTMP's @setDataFrame wrapper is a command
 // verb, not part of the FLV script-data tag format, so we drop
-// FirstField even when Parse observed one.)
+// FirstField even when Parse observed one.) A parsed tag is reproduced
+// byte for byte.
 func (mt *MetaTag) Marshal() (b []byte) {
+	if mt.raw != nil {
+		return mt.raw
+	}
 	buf := bytes.NewBuffer([]byte{})
 	writer := easyio.NewEasyWriter(buf)
 	amf := libamf.AMF0
diff --git a/librtmp/data_message.go b/librtmp/data_message.go
index bc52b21..dd859f0 100644
--- a/librtmp/data_message.go
+++ b/librtmp/data_message.go
@@ -67,6 +67,12 @@ func (dm *DataMessage) Do() (err error) {
 	if dm.rtmp.room == nil || dm.rtmp.role == rolePlayer {
 		return nil
 	}
+	if dm.metaTag.SecondField != "onMetaData" {
+		//Cue points and the like belong to one moment of the stream and do
+		//not replace its metadata.
+		dm.rtmp.room.GOP.Write(dm.metaTag)
+		return nil
+	}
 	dm.rtmp.room.setMeta(dm.metaTag)
 	dm.rtmp.room.GOP.WriteMeta(dm.metaTag)
 	fmt.Printf("write packet data :%+v\n", dm.metaTag)
-- 
2.43.0


From d6b34c5e205983713a419770df888c88f4898ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 09/57] fix: treat only AVC, HEVC and AV1 configuration packets
 as sequence headers

---
 librtmp/video.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/librtmp/video.go b/librtmp/video.go
index fdbcad4..f02092d 100644
--- a/librtmp/video.go
+++ b/librtmp/video.go
@@ -85,8 +85,10 @@ func (vm *VideoMessage) Do() (err error) {
 	if vm.rtmp.room == nil || vm.rtmp.role == rolePlayer {
 		return nil
 	}
-	if vm.videoTag.FrameType == libflv.KEY_FRAME {
-		if vm.videoTag.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
+	//Only these codecs have packet types.
+	typed := vm.videoTag.CodecID == libflv.FLV_VIDEO_AVC || vm.videoTag.CodecID == libflv.FLV_VIDEO_HEVC || vm.videoTag.CodecID == libflv.FLV_VIDEO_AV1
+	if vm.videoTag.FrameType == libflv.KEY_FRAME && !(typed && vm.videoTag.AVCPacketType == libflv.AVC_END_OF_SEQUENCE) {
+		if typed && vm.videoTag.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
 			vm.rtmp.room.setVideoSequenceHeader(vm.videoTag)
 			vm.rtmp.room.GOP.WriteMeta(vm.videoTag)
 		} else {
-- 
2.43.0


From 7d9938ecae941d4af073995bcaf46b57900038ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 10/57] fix: accept audio tags with an empty body

---
 libflv/audio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libflv/audio.go b/libflv/audio.go
index 4e30c9f..1889c62 100644
--- a/libflv/audio.go
+++ b/libflv/audio.go
@@ -54,7 +54,7 @@ type AudioTag struct {
 }
 
 func ParseAudioTag(tb TagBase, b []byte) (audio *AudioTag, err error) {
-	if len(b) <= 1 {
+	if len(b) < 1 {
 		return nil, errors.New("invalid audio format")
 	}
 	audio = &AudioTag{
-- 
2.43.0


From 47a2fbe02c298d471fc375e522b414ce6bf3d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:58 +0000
Subject: [PATCH 11/57] fix: keep negative composition times

---
 libflv/video.go | 3 +++
 libhls/hls.go   | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/libflv/video.go b/libflv/video.go
index 57888c4..a1618cf 100644
--- a/libflv/video.go
+++ b/libflv/video.go
@@ -58,6 +58,9 @@ func ParseVideoTag(tb TagBase, b []byte) (video *VideoTag, err error) {
 		}
 		video.AVCPacketType = b[1]
 		video.Cts = uint32(0x00)<<24 | uint32(b[2])<<16 | uint32(b[3])<<8 | uint32(b[4])
+		if b[2]&0x80 != 0 { //negative, extend the sign
+			video.Cts |= 0xff000000
+		}
 		video.VideoData = b[5:]
 	}
 
diff --git a/libhls/hls.go b/libhls/hls.go
index 3dd6888..5d06280 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -477,7 +477,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + uint64(int64(int32(pv.Cts))*90)
 			}
 			return pes, pid, videoKey, false
 
@@ -506,7 +506,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.Data = avccToAnnexB(pv.Data())
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(pv.Cts*90)
+				pes.PTS = pes.DTS + uint64(int64(int32(pv.Cts))*90)
 			}
 			return pes, pid, videoKey, false
 
-- 
2.43.0


From 273b5d947181de4e8d82e6aa1cbbed693e12f9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 12/57] fix: write the high bit of the channel configuration
 into ADTS headers

---
 libaac/aac.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libaac/aac.go b/libaac/aac.go
index 5823ceb..4ade22c 100644
--- a/libaac/aac.go
+++ b/libaac/aac.go
@@ -31,7 +31,7 @@ func (ah *AACHeader) Adts(data []byte) (header []byte) {
 	return []byte{
 		0xff,
 		0xf1,
-		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2),
+		((ah.ObjectType - 1) << 6) | (ah.SampleRate << 2) | (ah.Channel >> 2 & 0x01),
 		((ah.Channel << 2) << 4) | uint8((frameLen<<3)>>14),
 		uint8((frameLen << 5) >> 8),
 		uint8(((frameLen<<13)>>13)<<5) | ((0x7c << 1) >> 3),
-- 
2.43.0


From 3ac30b4f90689ab58179a8896d98551ec2193f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:25 +0000
Subject: [PATCH 13/57] fix: convert every AVC parameter set and NAL unit,
 whatever their number, type and length size

---
 libavc/avc.go | 121 ++++++++++++++++++++++++++++----------------------
 1 file changed, 67 insertions(+), 54 deletions(-)

diff --git a/libavc/avc.go b/libavc/avc.go
index 017a5f5..536f9bf 100644
--- a/libavc/avc.go
+++ b/libavc/avc.go
@@ -58,10 +58,12 @@ type sequenceHeader struct {
 type Parser struct {
 	SpecificInfo []byte
 	Pps          *bytes.Buffer
+
+	naluLen int //bytes of a NAL unit's length prefix, from the configuration record
 }
 
 func (parser *Parser) ParseSpecificInfo(src []byte) error {
-	if len(src) < 9 {
+	if len(src) < 7 {
 		return decDataNil
 	}
 	sps := []byte{}
@@ -78,30 +80,42 @@ func (parser *Parser) ParseSpecificInfo(src []byte) error {
 
 	//get sps
 	seq.spsNum = src[5] & 0x1f
-	seq.spsLen = int(src[6])<<8 | int(src[7])
-
-	if len(src[8:]) < seq.spsLen || seq.spsLen <= 0 {
-		return spsDataError
+	tmpBuf := src[6:]
+	for i := byte(0); i < seq.spsNum; i++ {
+		if len(tmpBuf) < 2 {
+			return spsDataError
+		}
+		seq.spsLen = int(tmpBuf[0])<<8 | int(tmpBuf[1])
+		if len(tmpBuf[2:]) < seq.spsLen || seq.spsLen <= 0 {
+			return spsDataError
+		}
+		sps = append(sps, startCode...)
+		sps = append(sps, tmpBuf[2:2+seq.spsLen]...)
+		tmpBuf = tmpBuf[2+seq.spsLen:]
 	}
-	sps = append(sps, startCode...)
-	sps = append(sps, src[8:(8+seq.spsLen)]...)
 
 	//get pps
-	tmpBuf := src[(8 + seq.spsLen):]
-	if len(tmpBuf) < 4 {
+	if len(tmpBuf) < 1 {
 		return ppsHeaderError
 	}
 	seq.ppsNum = tmpBuf[0]
-	seq.ppsLen = int(0)<<16 | int(tmpBuf[1])<<8 | int(tmpBuf[2])
-	if len(tmpBuf[3:]) < seq.ppsLen || seq.ppsLen <= 0 {
-		return ppsDataError
+	tmpBuf = tmpBuf[1:]
+	for i := byte(0); i < seq.ppsNum; i++ {
+		if len(tmpBuf) < 2 {
+			return ppsHeaderError
+		}
+		seq.ppsLen = int(tmpBuf[0])<<8 | int(tmpBuf[1])
+		if len(tmpBuf[2:]) < seq.ppsLen || seq.ppsLen <= 0 {
+			return ppsDataError
+		}
+		pps = append(pps, startCode...)
+		pps = append(pps, tmpBuf[2:2+seq.ppsLen]...)
+		tmpBuf = tmpBuf[2+seq.ppsLen:]
 	}
 
-	pps = append(pps, startCode...)
-	pps = append(pps, tmpBuf[3:]...)
-
-	parser.SpecificInfo = append(parser.SpecificInfo, sps...)
-	parser.SpecificInfo = append(parser.SpecificInfo, pps...)
+	//The record replaces the previous one.
+	parser.naluLen = int(seq.naluLen)
+	parser.SpecificInfo = append(sps, pps...)
 
 	return nil
 }
@@ -116,11 +130,18 @@ func (parser *Parser) IsNaluHeader(src []byte) bool {
 		src[3] == 0x01
 }
 
+func (parser *Parser) lengthSize() int {
+	if parser.naluLen == 0 {
+		return naluBytesLen
+	}
+	return parser.naluLen
+}
+
 func (parser *Parser) naluSize(src []byte) (int, error) {
-	if len(src) < naluBytesLen {
+	if len(src) < parser.lengthSize() {
 		return 0, fmt.Errorf("nalusizedata invalid")
 	}
-	buf := src[:naluBytesLen]
+	buf := src[:parser.lengthSize()]
 	size := int(0)
 	for i := 0; i < len(buf); i++ {
 		size = size<<8 + int(buf[i])
@@ -129,11 +150,11 @@ func (parser *Parser) naluSize(src []byte) (int, error) {
 }
 
 func (parser *Parser) GetAnnexbH264(src []byte, w io.Writer) error {
+	lengthSize := parser.lengthSize()
 	dataSize := len(src)
-	if dataSize < naluBytesLen {
+	if dataSize < lengthSize {
 		return videoDataInvalid
 	}
-	parser.Pps.Reset()
 	_, err := w.Write(naluAud)
 	if err != nil {
 		return err
@@ -141,37 +162,41 @@ func (parser *Parser) GetAnnexbH264(src []byte, w io.Writer) error {
 
 	index := 0
 	nalLen := 0
-	hasSpsPps := false
-	hasWriteSpsPps := false
+	hasIdr, hasSps, hasPps := false, false, false
+	for rest := src; len(rest) > lengthSize; {
+		nalLen, _ = parser.naluSize(rest)
+		rest = rest[lengthSize:]
+		if nalLen <= 0 || nalLen > len(rest) {
+			break
+		}
+		switch rest[0] & 0x1f {
+		case nalu_type_idr:
+			hasIdr = true
+		case nalu_type_sps:
+			hasSps = true
+		case nalu_type_pps:
+			hasPps = true
+		}
+		rest = rest[nalLen:]
+	}
+	if hasIdr && !(hasSps && hasPps) {
+		if _, err := w.Write(parser.SpecificInfo); err != nil {
+			return err
+		}
+	}
 
 	for dataSize > 0 {
 		nalLen, err = parser.naluSize(src[index:])
 		if err != nil {
 			return dataSizeNotMatch
 		}
-		index += naluBytesLen
-		dataSize -= naluBytesLen
+		index += lengthSize
+		dataSize -= lengthSize
 		if dataSize >= nalLen && len(src[index:]) >= nalLen && nalLen > 0 {
 			nalType := src[index] & 0x1f
 			switch nalType {
 			case nalu_type_aud:
-			case nalu_type_idr:
-				if !hasWriteSpsPps {
-					hasWriteSpsPps = true
-					if !hasSpsPps {
-						if _, err := w.Write(parser.SpecificInfo); err != nil {
-							return err
-						}
-					} else {
-						if _, err := w.Write(parser.Pps.Bytes()); err != nil {
-							return err
-						}
-					}
-				}
-				fallthrough
-			case nalu_type_slice:
-				fallthrough
-			case nalu_type_sei:
+			default:
 				_, err := w.Write(startCode)
 				if err != nil {
 					return err
@@ -180,18 +205,6 @@ func (parser *Parser) GetAnnexbH264(src []byte, w io.Writer) error {
 				if err != nil {
 					return err
 				}
-			case nalu_type_sps:
-				fallthrough
-			case nalu_type_pps:
-				hasSpsPps = true
-				_, err := parser.Pps.Write(startCode)
-				if err != nil {
-					return err
-				}
-				_, err = parser.Pps.Write(src[index : index+nalLen])
-				if err != nil {
-					return err
-				}
 			}
 			index += nalLen
 			dataSize -= nalLen
-- 
2.43.0


From 10136b0cb136b8af115c5600c2cde74bccd9ab0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:40 +0000
Subject: [PATCH 14/57] fix: stuff transport packets whose payload falls just
 short or carries a small keyframe

---
 libmpeg/ts.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmpeg/ts.go b/libmpeg/ts.go
index 82a3ce3..47ec328 100644
--- a/libmpeg/ts.go
+++ b/libmpeg/ts.go
@@ -126,8 +126,8 @@ func (af *AdaptationField) Parse(reader easyio.EasyReader) (err error) {
 }
 
 func (af *AdaptationField) Marshal(writer easyio.EasyWriter) (n uint8, err error) {
-	if af.AdaptationFieldLength < 1 {
-		return 0, fmt.Errorf("invalid1 AdaptationFieldLength:%d", af.AdaptationFieldLength)
+	if af.AdaptationFieldLength < 1 { //one stuffing byte: the length itself
+		return 1, writer.WriteFull([]byte{0})
 	}
 
 	b := make([]byte, 0, af.AdaptationFieldLength+1)
@@ -270,7 +270,7 @@ func (ts *TS) Mux(psi PSI, firstTSofKeyFrame bool, dts uint64, writer easyio.Eas
 
 		if remain := psi.Remain(); remain < int(writable-headerSize) {
 			ts.AdaptationFieldExist |= 0x02
-			ts.AdaptationField.AdaptationFieldLength = uint8(int(writable-headerSize) - remain - 1)
+			ts.AdaptationField.AdaptationFieldLength = uint8(int(writable) - 4 - remain - 1)
 		}
 	}
 
-- 
2.43.0


From c0ddb124ff891b19897efa12e58b05b32bf7db2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:42 +0000
Subject: [PATCH 15/57] fix: parse program tables of any length with their
 stream types

---
 libmpeg/psi.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/libmpeg/psi.go b/libmpeg/psi.go
index 59dd730..76f1826 100644
--- a/libmpeg/psi.go
+++ b/libmpeg/psi.go
@@ -61,7 +61,7 @@ func (pat *PAT) Parse(reader easyio.EasyReader) (err error) {
 	if pat.SectionSyntaxIndicator != 0x01 {
 		return fmt.Errorf("invalid SectionSyntaxIndicator of PAT, SectionSyntaxIndicator:%d", pat.SectionSyntaxIndicator)
 	}
-	if (pat.SectionLength>>10)&0x03 != 0x00 || pat.SectionLength > 0x3fd {
+	if (pat.SectionLength>>10)&0x03 != 0x00 || pat.SectionLength > 0x3fd || pat.SectionLength < 5+4 {
 		return fmt.Errorf("invalid SectionLength of PAT, SectionLength:%d", pat.SectionLength)
 	}
 
@@ -102,7 +102,7 @@ func (pat *PAT) Marshal(writer easyio.EasyWriter, writable int) (n int, finish b
 		uint8(pat.SectionLength & 0xff),
 		uint8((pat.TransportStreamID >> 8) & 0xff),
 		uint8(pat.TransportStreamID & 0xff),
-		0xc0 | ((pat.VersionNumber << 1) & 0x37) | (pat.CurrentNextIndicator & 0x01),
+		0xc0 | ((pat.VersionNumber << 1) & 0x3e) | (pat.CurrentNextIndicator & 0x01),
 		pat.SectionNumber,
 		pat.LastSectionNumber,
 	}
@@ -166,14 +166,14 @@ func (pmt *PMT) Parse(reader easyio.EasyReader) (err error) {
 
 	pmt.TableID = b1[0]
 	pmt.SectionSyntaxIndicator = (b1[1] & 0x80) >> 7
-	pmt.SectionLength = uint16((b1[1]&0x0f)<<8) + uint16(b1[2])
+	pmt.SectionLength = uint16(b1[1]&0x0f)<<8 + uint16(b1[2])
 	pmt.ProgramNumber = uint16(b1[3])<<8 + uint16(b1[4])
 	pmt.VersionNumber = (b1[5] & 0x3e) >> 1
 	pmt.CurrentNextIndicator = b1[5] & 0x01
 	pmt.SectionNumber = b1[6]
 	pmt.LastSectionNumber = b1[7]
 	pmt.PCR_PID = uint16(b1[8]&0x1f)<<8 + uint16(b1[9])
-	pmt.ProgramInfoLength = uint16((b1[10]&0x0f)<<8 + b1[11])
+	pmt.ProgramInfoLength = uint16(b1[10]&0x0f)<<8 + uint16(b1[11])
 
 	if pmt.TableID != 0x02 {
 		return fmt.Errorf("invalid TableID of PMT, TableID:%d", pmt.TableID)
@@ -200,6 +200,9 @@ func (pmt *PMT) Parse(reader easyio.EasyReader) (err error) {
 		return fmt.Errorf("read descriptor of PMT error:%w", err)
 	}
 
+	if pmt.SectionLength < 9+pmt.ProgramInfoLength+4 {
+		return fmt.Errorf("invalid SectionLength of PMT, SectionLength:%d", pmt.SectionLength)
+	}
 	b3 := make([]byte, pmt.SectionLength-9-pmt.ProgramInfoLength-4) //4:CRC_32
 	err = reader.ReadFull(b3)
 	if err != nil {
@@ -207,14 +210,16 @@ func (pmt *PMT) Parse(reader easyio.EasyReader) (err error) {
 	}
 	for i := 0; i+5 <= len(b3); i += 5 {
 		streamPID := uint16(b3[i+1]&0x1f)<<8 + uint16(b3[i+2])
+		streamType := b3[i]
+		esInfoLength := uint16(b3[i+3]&0x0f)<<8 + uint16(b3[i+4])
+		if (esInfoLength>>10)&0x03 != 0x00 {
+			return fmt.Errorf("invalid ESInfoLength of PMT, ESInfoLength:%d", esInfoLength)
+		}
+		i += int(esInfoLength)
 		if _, ok := pmt.Streams[streamPID]; !ok {
-			esInfoLength := uint16(b3[i+3]&0x0f)<<8 + uint16(b3[i+4])
-			if (esInfoLength>>10)&0x03 != 0x00 {
-				return fmt.Errorf("invalid ESInfoLength of PMT, ESInfoLength:%d", esInfoLength)
-			}
-			i += int(esInfoLength)
 			pmt.Streams[streamPID] = NewPES()
 		}
+		pmt.Streams[streamPID].StreamType = streamType
 	}
 
 	pmt.CRC32 = CRC32(append(append(b1, b2...), b3...))
-- 
2.43.0


From 80d0bfabdfccd4713c1d1806a00430c71e3b0947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:05 +0000
Subject: [PATCH 16/57] fix: demultiplex packets with adaptation fields, tables
 and PES payloads

---
 libmpeg/pes.go |  7 +++++++
 libmpeg/ts.go  | 45 +++++++++++++++++++++++++++++++++++----------
 2 files changed, 42 insertions(+), 10 deletions(-)

diff --git a/libmpeg/pes.go b/libmpeg/pes.go
index 5558023..715315f 100644
--- a/libmpeg/pes.go
+++ b/libmpeg/pes.go
@@ -1,6 +1,7 @@
 package libmpeg
 
 import (
+	"bytes"
 	"fmt"
 
 	"github.com/SmartBrave/Athena/easyerrors"
@@ -81,6 +82,11 @@ func (pes *PES) Parse(reader easyio.EasyReader) (err error) {
 		pes.PESCRCFlag = (b[1] & 0x02) >> 1
 		pes.PESExtensionFlag = b[1] & 0x01
 		pes.PESHeaderDataLength = b[2]
+		b, err = reader.ReadN(uint32(pes.PESHeaderDataLength))
+		if err != nil {
+			return err
+		}
+		reader := easyio.NewEasyReader(bytes.NewReader(b)) //fields and stuffing of the header
 		switch pes.PTS_DTSFlag {
 		case 0x02:
 			b, err = reader.ReadN(5)
@@ -88,6 +94,7 @@ func (pes *PES) Parse(reader easyio.EasyReader) (err error) {
 				return err
 			}
 			pes.PTS = (uint64(b[4]&0xfe) >> 1) | (uint64(b[3]) << 7) | (uint64(b[2]&0xfe) << 14) | (uint64(b[1]) << 22) | (uint64(b[0]&0x0e) << 29)
+			pes.DTS = pes.PTS
 		case 0x03:
 			b, err = reader.ReadN(10)
 			if err != nil {
diff --git a/libmpeg/ts.go b/libmpeg/ts.go
index 47ec328..15acef5 100644
--- a/libmpeg/ts.go
+++ b/libmpeg/ts.go
@@ -1,6 +1,7 @@
 package libmpeg
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 
@@ -207,7 +208,7 @@ func NewTs(pid uint16, cc map[uint16]uint8, firstTs bool) (ts *TS) {
 }
 
 func (ts *TS) DeMux(pidTable map[uint16]PSI, reader easyio.EasyReader) (err error) {
-	b, err := reader.ReadN(4)
+	b, err := reader.ReadN(188)
 	if err != nil {
 		return err
 	}
@@ -225,24 +226,48 @@ func (ts *TS) DeMux(pidTable map[uint16]PSI, reader easyio.EasyReader) (err erro
 	ts.AdaptationFieldExist = (b[3] & 0x30) >> 4
 	ts.ContinuityCounter = b[3] & 0x0f
 
+	payload := b[4:]
 	if ts.AdaptationFieldExist == 0x02 || ts.AdaptationFieldExist == 0x03 {
-		ts.AdaptationField = NewAdaptationField()
-		ts.AdaptationField.Parse(reader)
-	}
-
-	if ts.PayloadUnitStartIndicator == 0x01 {
-		b, err1 := reader.ReadN(1)
-		b, err2 := reader.ReadN(uint32(b[0]))
-		if err := easyerrors.HandleMultiError(easyerrors.Simple(), err1, err2); err != nil {
+		length := 1 + int(payload[0])
+		if length > len(payload) {
 			return INVALID_DATA_ERROR
 		}
+		ts.AdaptationField = NewAdaptationField()
+		if err = ts.AdaptationField.Parse(easyio.NewEasyReader(bytes.NewReader(payload[:length]))); err != nil {
+			return err
+		}
+		payload = payload[length:] //stuffing included
+	}
+	if ts.AdaptationFieldExist&0x01 == 0 {
+		payload = nil
 	}
 
 	psi, exist := pidTable[ts.PID]
 	if !exist {
 		return fmt.Errorf("invalid pid:%d", ts.PID)
 	}
-	return psi.Parse(reader)
+
+	if pes, ok := psi.(*PES); ok {
+		if ts.PayloadUnitStartIndicator == 0x00 {
+			pes.Data = append(pes.Data, payload...)
+			return nil
+		}
+		rest := easyio.NewEasyReader(bytes.NewReader(payload))
+		if err = pes.Parse(rest); err != nil {
+			return err
+		}
+		pes.Data, err = rest.ReadAll()
+		return err
+	}
+
+	if ts.PayloadUnitStartIndicator == 0x01 { //pointer_field precedes a table
+		if len(payload) < 1 || 1+int(payload[0]) > len(payload) {
+			return INVALID_DATA_ERROR
+		}
+		ts.PayloadPointer = payload[0]
+		payload = payload[1+int(payload[0]):]
+	}
+	return psi.Parse(easyio.NewEasyReader(bytes.NewReader(payload)))
 }
 
 func (ts *TS) Mux(psi PSI, firstTSofKeyFrame bool, dts uint64, writer easyio.EasyWriter) (finish bool, err error) {
-- 
2.43.0


From 5aeaef1f4149864326aeb4f0f8ad6528a41c8fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 17/57] fix: read the cropped picture size of every SPS and
 carry configuration records verbatim

---
 libdash/dash.go        | 130 +++++++++++++++++++++++++++++++++--------
 libmp4/init_segment.go |  11 +++-
 2 files changed, 116 insertions(+), 25 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index 424654e..fbce396 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -359,6 +359,9 @@ func parseHEVCSPSDimensions(sps []byte) (w, h uint16) {
 	}
 
 	//Skip 2-byte NAL header.
+	if len(rbsp) < 2 {
+		return 0, 0
+	}
 	br := newBitReader(rbsp[2:])
 	_, _ = br.readBits(4) //sps_video_parameter_set_id
 	maxSubLayers, _ := br.readBits(3)
@@ -370,26 +373,36 @@ func parseHEVCSPSDimensions(sps []byte) (w, h uint16) {
 	for i := 0; i < skipBytes; i++ {
 		_, _ = br.readBits(8)
 	}
-	if maxSubLayers > 1 {
-		flags, _ := br.readBits(2 * int(maxSubLayers-1))
-		_ = flags
-		//byte-align: the spec specifies padding.
-		for br.pos%8 != 0 {
-			_, _ = br.readBits(1)
+	if maxSubLayers > 0 { //the field is sps_max_sub_layers_minus1
+		flags, _ := br.readBits(2 * 8) //a pair per sub-layer, reserved up to 8 pairs
+		for i := 0; i < int(maxSubLayers); i++ {
+			if flags&(0x8000>>uint(2*i)) != 0 { //sub_layer_profile_present_flag
+				_, _ = br.readBits(88)
+			}
+			if flags&(0x4000>>uint(2*i)) != 0 { //sub_layer_level_present_flag
+				_, _ = br.readBits(8)
+			}
 		}
-		//Each sub-layer-present flag bit pair brings up to 11 bytes
-		//of profile/level data. Without parsing the flags we can't
-		//cleanly skip them — bail if any are set.
 	}
 
 	_ = br.readUE() //seq_parameter_set_id
 	chromaFormat := br.readUE()
+	separateColourPlane := uint32(0)
 	if chromaFormat == 3 {
-		_, _ = br.readBits(1)
+		separateColourPlane, _ = br.readBits(1)
 	}
-	_ = chromaFormat
 	w16 := br.readUE()
 	h16 := br.readUE()
+	if conformanceWindow, _ := br.readBits(1); conformanceWindow != 0 {
+		subWidth, subHeight := chromaSubsampling(chromaFormat, separateColourPlane)
+		left, right := br.readUE(), br.readUE()
+		top, bottom := br.readUE(), br.readUE()
+		w16 -= (left + right) * subWidth
+		h16 -= (top + bottom) * subHeight
+	}
+	if br.eof {
+		return 0, 0
+	}
 	w = uint16(w16)
 	h = uint16(h16)
 	return
@@ -422,6 +435,7 @@ func (d *DASH) handleSequenceHeader(record []byte) error {
 		Height:    h,
 		SPS:       sps,
 		PPS:       pps,
+		AVCCRecord: record,
 	})
 	d.mu.Unlock()
 
@@ -538,6 +552,13 @@ func parseAVCDCR(src []byte) (sps, pps []byte, width, height uint16, err error)
 	}
 	sps = append([]byte(nil), src[off:off+spsLen]...)
 	off += spsLen
+	for i := byte(1); i < numSPS; i++ { //the first one describes the picture
+		if off+2 > len(src) {
+			err = fmt.Errorf("DCR truncated at SPS length")
+			return
+		}
+		off += 2 + int(binary.BigEndian.Uint16(src[off:off+2]))
+	}
 
 	if off >= len(src) {
 		err = fmt.Errorf("DCR truncated before PPS count")
@@ -586,28 +607,38 @@ func parseSPSDimensions(sps []byte) (width, height uint16) {
 		rbsp = append(rbsp, sps[i])
 	}
 
+	if len(rbsp) < 4 {
+		return 0, 0
+	}
 	br := newBitReader(rbsp[1:]) //skip nal_unit_type byte
 	profile, _ := br.readBits(8)
 	_, _ = br.readBits(16) //constraint flags + reserved + level
 	_ = br.readUE()        //seq_parameter_set_id
 
 	chromaFormat := uint32(1)
+	separateColourPlane := uint32(0)
 	if profile == 100 || profile == 110 || profile == 122 || profile == 244 ||
 		profile == 44 || profile == 83 || profile == 86 || profile == 118 ||
 		profile == 128 || profile == 138 || profile == 139 || profile == 134 ||
 		profile == 135 {
 		chromaFormat = br.readUE()
 		if chromaFormat == 3 {
-			_, _ = br.readBits(1) //separate_colour_plane_flag
+			separateColourPlane, _ = br.readBits(1) //separate_colour_plane_flag
 		}
 		_ = br.readUE() //bit_depth_luma_minus8
 		_ = br.readUE() //bit_depth_chroma_minus8
 		_, _ = br.readBits(1) //qpprime_y_zero_transform_bypass_flag
 		seqScaling, _ := br.readBits(1)
 		if seqScaling != 0 {
-			//Skip scaling lists — implementing them robustly is a
-			//digression. Most live encoders don't enable this.
-			return 0, 0
+			lists := 8
+			if chromaFormat == 3 {
+				lists = 12
+			}
+			for i := 0; i < lists; i++ {
+				if present, _ := br.readBits(1); present != 0 {
+					br.skipScalingList(i)
+				}
+			}
 		}
 	}
 	_ = br.readUE() //log2_max_frame_num_minus4
@@ -620,6 +651,9 @@ func parseSPSDimensions(sps []byte) (width, height uint16) {
 		_ = br.readSE()
 		_ = br.readSE()
 		n := br.readUE()
+		if n > 255 { //the largest num_ref_frames_in_pic_order_cnt_cycle there is
+			return 0, 0
+		}
 		for i := uint32(0); i < n; i++ {
 			_ = br.readSE()
 		}
@@ -630,27 +664,57 @@ func parseSPSDimensions(sps []byte) (width, height uint16) {
 	picWidthInMbsMinus1 := br.readUE()
 	picHeightInMapUnitsMinus1 := br.readUE()
 	frameMbsOnly, _ := br.readBits(1)
+	if frameMbsOnly == 0 {
+		_, _ = br.readBits(1) //mb_adaptive_frame_field_flag
+	}
+	_, _ = br.readBits(1) //direct_8x8_inference_flag
 
-	width = uint16((picWidthInMbsMinus1 + 1) * 16)
+	w := (picWidthInMbsMinus1 + 1) * 16
 	heightInMapUnits := picHeightInMapUnitsMinus1 + 1
 	if frameMbsOnly == 0 {
 		heightInMapUnits *= 2
 	}
-	height = uint16(heightInMapUnits * 16)
+	h := heightInMapUnits * 16
 
-	//frame_cropping_flag may further trim the frame; not honoured here
-	//— we'd need to know SubWidthC/SubHeightC from chromaFormat. For
-	//our display-purposes the unmodified macroblock-rounded size is
-	//close enough.
-	_ = chromaFormat
-	return width, height
+	//frame_cropping_flag may further trim the frame.
+	if cropping, _ := br.readBits(1); cropping != 0 {
+		cropUnitX, cropUnitY := chromaSubsampling(chromaFormat, separateColourPlane)
+		if frameMbsOnly == 0 {
+			cropUnitY *= 2
+		}
+		left, right := br.readUE(), br.readUE()
+		top, bottom := br.readUE(), br.readUE()
+		w -= (left + right) * cropUnitX
+		h -= (top + bottom) * cropUnitY
+	}
+	if br.eof {
+		return 0, 0
+	}
+	return uint16(w), uint16(h)
+}
+
+// chromaSubsampling returns SubWidthC and SubHeightC, the units in which
+// cropping is expressed.
+func chromaSubsampling(chromaFormat, separateColourPlane uint32) (w, h uint32) {
+	if separateColourPlane != 0 {
+		return 1, 1
+	}
+	switch chromaFormat {
+	case 1: //4:2:0
+		return 2, 2
+	case 2: //4:2:2
+		return 2, 1
+	default: //monochrome, 4:4:4
+		return 1, 1
+	}
 }
 
 // bitReader is a minimal Exp-Golomb decoder for SPS parsing. It only
 // covers what parseSPSDimensions needs.
 type bitReader struct {
 	buf []byte
-	pos int //bit offset
+	pos int  //bit offset
+	eof bool //a read went past the end
 }
 
 func newBitReader(b []byte) *bitReader { return &bitReader{buf: b} }
@@ -660,6 +724,7 @@ func (b *bitReader) readBits(n int) (uint32, bool) {
 	for i := 0; i < n; i++ {
 		bytePos := b.pos / 8
 		if bytePos >= len(b.buf) {
+			b.eof = true
 			return 0, false
 		}
 		bit := (b.buf[bytePos] >> (7 - uint(b.pos%8))) & 1
@@ -699,3 +764,20 @@ func (b *bitReader) readSE() int32 {
 	}
 	return int32((v + 1) / 2)
 }
+
+// skipScalingList walks past scaling list i of an H.264 SPS.
+func (b *bitReader) skipScalingList(i int) {
+	size := 16
+	if i >= 6 {
+		size = 64
+	}
+	last, next := int32(8), int32(8)
+	for j := 0; j < size; j++ {
+		if next != 0 {
+			next = (last + b.readSE() + 256) % 256
+		}
+		if next != 0 {
+			last = next
+		}
+	}
+}
diff --git a/libmp4/init_segment.go b/libmp4/init_segment.go
index c033cb3..fc6c196 100644
--- a/libmp4/init_segment.go
+++ b/libmp4/init_segment.go
@@ -11,6 +11,11 @@ type InitSegmentParams struct {
 	Height    uint16
 	SPS       []byte //one SPS NAL (without the 0x000001 start code)
 	PPS       []byte //one PPS NAL (without the 0x000001 start code)
+
+	//AVCCRecord, when set, is the publisher's AVCDecoderConfigurationRecord.
+	//It is carried verbatim, with all of its parameter sets and the NAL
+	//length size the samples use.
+	AVCCRecord []byte
 }
 
 // BuildInitSegment returns a CMAF-compliant initialisation segment
@@ -198,7 +203,11 @@ func avc1(p InitSegmentParams) []byte {
 	body = appendU16(body, 0x0018)                  //depth (24)
 	body = appendU16(body, 0xffff)                  //pre_defined = -1
 
-	body = append(body, avcC(p.SPS, p.PPS)...)
+	if len(p.AVCCRecord) > 0 {
+		body = append(body, Box{Type: FourCC("avcC"), Body: p.AVCCRecord}.Bytes()...)
+	} else {
+		body = append(body, avcC(p.SPS, p.PPS)...)
+	}
 	return Box{Type: FourCC("avc1"), Body: body}.Bytes()
 }
 
-- 
2.43.0


From fc38c13f4fd0a6f8ce5e673f8fa3d44b8104d45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:37 +0000
Subject: [PATCH 18/57] fix: admit SRT callers only through a complete
 handshake and count in 31 bits

---
 libsrt/listener.go | 164 +++++++++++++++++++++++++++++++++------------
 1 file changed, 121 insertions(+), 43 deletions(-)

diff --git a/libsrt/listener.go b/libsrt/listener.go
index 867c791..783922f 100644
--- a/libsrt/listener.go
+++ b/libsrt/listener.go
@@ -28,8 +28,16 @@ type Listener struct {
 	streamID   string
 	onData     DataHandler
 
+	// OnOpen is asked before a caller is admitted; an error refuses it.
+	// OnClose follows when an admitted caller is gone. Both are optional
+	// and, like onData, called from Run only.
+	OnOpen  func(streamID string) error
+	OnClose func(streamID string)
+
 	mu       sync.Mutex
-	sessions map[string]*session
+	sessions map[string]*session //admitted
+	pending  map[string]*session //got a cookie, not admitted yet
+	lastSweep time.Time
 	socketID uint32 //ours, monotonically incremented per accept
 }
 
@@ -38,7 +46,6 @@ type session struct {
 	peerSocketID  uint32
 	ourSocketID   uint32
 	cookie        uint32
-	concluded     bool
 	startTime     time.Time
 	lastSeen      time.Time
 	streamID      string
@@ -72,6 +79,7 @@ func Listen(addr, streamID string, onData DataHandler) (*Listener, error) {
 		streamID: streamID,
 		onData:   onData,
 		sessions: map[string]*session{},
+		pending:  map[string]*session{},
 		socketID: rand.Uint32() | 0x40000000, //bit 30 set so it doesn't look like 0
 	}
 	return l, nil
@@ -81,8 +89,17 @@ func Listen(addr, streamID string, onData DataHandler) (*Listener, error) {
 // Caller is responsible for invoking Close().
 func (l *Listener) Run() error {
 	buf := make([]byte, 1500)
+	defer l.dropIdle(0)
 	for {
+		if time.Since(l.lastSweep) >= sweepInterval {
+			l.lastSweep = time.Now()
+			l.dropIdle(idleTimeout)
+			_ = l.conn.SetReadDeadline(l.lastSweep.Add(sweepInterval))
+		}
 		n, peer, err := l.conn.ReadFromUDP(buf)
+		if ne, ok := err.(net.Error); ok && ne.Timeout() {
+			continue
+		}
 		if err != nil {
 			return err
 		}
@@ -93,6 +110,43 @@ func (l *Listener) Run() error {
 	}
 }
 
+// A caller we heard nothing from (not even keepalives, which are due
+// every second) for idleTimeout is gone.
+const (
+	idleTimeout   = 5 * time.Second
+	sweepInterval = time.Second
+)
+
+func (l *Listener) dropIdle(after time.Duration) {
+	var gone []string
+	l.mu.Lock()
+	for key, sess := range l.sessions {
+		if time.Since(sess.lastSeen) >= after {
+			gone = append(gone, key)
+		}
+	}
+	for key, sess := range l.pending {
+		if time.Since(sess.lastSeen) >= after {
+			delete(l.pending, key)
+		}
+	}
+	l.mu.Unlock()
+	for _, key := range gone {
+		l.drop(key)
+	}
+}
+
+// drop ends the admitted session of a peer.
+func (l *Listener) drop(key string) {
+	l.mu.Lock()
+	sess := l.sessions[key]
+	delete(l.sessions, key)
+	l.mu.Unlock()
+	if sess != nil && l.OnClose != nil {
+		l.OnClose(sess.streamID)
+	}
+}
+
 // Close shuts the UDP socket; the Run loop returns shortly after.
 func (l *Listener) Close() error { return l.conn.Close() }
 
@@ -107,6 +161,7 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 	key := peer.String()
 	l.mu.Lock()
 	sess := l.sessions[key]
+	pending := l.pending[key]
 	l.mu.Unlock()
 
 	switch hdr.Kind {
@@ -115,12 +170,11 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 		case CtrlHandshake:
 			l.handleHandshake(peer, hdr, body)
 		case CtrlShutdown:
-			if sess != nil {
-				l.mu.Lock()
-				delete(l.sessions, key)
-				l.mu.Unlock()
-			}
+			l.drop(key)
 		case CtrlKeepAlive:
+			if sess == nil {
+				sess = pending
+			}
 			if sess != nil {
 				sess.lastSeen = time.Now()
 				//Mirror the keepalive back per spec.
@@ -132,7 +186,7 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 			}
 		}
 	case KindData:
-		if sess == nil || !sess.concluded {
+		if sess == nil {
 			return
 		}
 		sess.lastSeen = time.Now()
@@ -148,10 +202,6 @@ func (l *Listener) handlePacket(peer *net.UDPAddr, raw []byte) {
 // jitter buffer.
 func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 	sess.mu.Lock()
-	if sess.expectedSeq == 0 && sess.ackNum == 0 {
-		//First data packet — adopt its sequence as the baseline.
-		sess.expectedSeq = hdr.SeqNumber
-	}
 	diff := SeqDiff(hdr.SeqNumber, sess.expectedSeq)
 	sess.receivedSeqs++
 
@@ -165,20 +215,26 @@ func (l *Listener) handleDataPacket(sess *session, hdr *Header, body []byte) {
 		//NAK so the sender can retransmit; either it arrives before we
 		//hand off media (benign) or we've already moved past it.
 		from := sess.expectedSeq
-		to := hdr.SeqNumber - 1
-		sess.expectedSeq = hdr.SeqNumber + 1
+		to := (hdr.SeqNumber - 1) & seqMask
+		sess.expectedSeq = (hdr.SeqNumber + 1) & seqMask
 		sess.mu.Unlock()
 		l.sendNAK(sess, from, to)
 	default:
-		sess.expectedSeq++
+		sess.expectedSeq = (sess.expectedSeq + 1) & seqMask
 		sess.mu.Unlock()
 	}
 	if l.onData != nil {
-		_ = l.onData(sess.streamID, body)
+		if err := l.onData(sess.streamID, body); err != nil {
+			l.sendControl(sess.peerAddr, CtrlShutdown, 0, 0, sess, make([]byte, 4))
+			l.drop(sess.peerAddr.String())
+			return
+		}
 	}
 	l.maybeSendACK(sess)
 }
 
+const seqMask = uint32(1)<<31 - 1 //sequence numbers have 31 bits
+
 // sendNAK emits a single-range NAK loss-list.
 func (l *Listener) sendNAK(sess *session, from, to uint32) {
 	body := MarshalNAK([]LossRange{{From: from, To: to}})
@@ -213,28 +269,39 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 	key := peer.String()
 
 	l.mu.Lock()
-	sess := l.sessions[key]
-	if sess == nil {
-		sess = &session{
-			peerAddr:     peer,
-			ourSocketID:  l.socketID,
-			startTime:    time.Now(),
-			streamID:     l.streamID,
-		}
-		l.socketID++
-		l.sessions[key] = sess
-	}
+	sess, pending := l.sessions[key], l.pending[key]
 	l.mu.Unlock()
 
 	switch hs.HandshakeType {
 	case HSTypeAgreement: //v5 INDUCTION
-		//Mint a cookie tied to the peer's socket id; the conclusion
-		//must echo it back. CRC32 is used as a cheap mixer; real SRT
-		//also includes a server start time and IP.
-		sess.peerSocketID = hs.SrtSocketID
-		sess.cookie = crc32.ChecksumIEEE(
-			[]byte(fmt.Sprintf("%s-%d-%d",
-				peer.IP.String(), hs.SrtSocketID, time.Now().UnixNano())))
+		//A repeated induction gets the same answer again; an admitted
+		//session stays as it is until another one concludes.
+		if sess == nil || sess.peerSocketID != hs.SrtSocketID {
+			sess = pending
+		}
+		if sess == nil || sess.peerSocketID != hs.SrtSocketID {
+			//Mint a cookie tied to the peer's socket id; the conclusion
+			//must echo it back. CRC32 is used as a cheap mixer; real SRT
+			//also includes a server start time and IP.
+			sess = &session{
+				peerAddr:     peer,
+				peerSocketID: hs.SrtSocketID,
+				startTime:    time.Now(),
+				streamID:     l.streamID,
+			}
+			sess.cookie = crc32.ChecksumIEEE(
+				[]byte(fmt.Sprintf("%s-%d-%d",
+					peer.IP.String(), hs.SrtSocketID, time.Now().UnixNano())))
+			if sess.cookie == 0 {
+				sess.cookie = 1
+			}
+			l.mu.Lock()
+			sess.ourSocketID = l.socketID
+			l.socketID++
+			l.pending[key] = sess
+			l.mu.Unlock()
+		}
+		sess.lastSeen = time.Now()
 
 		reply := *hs
 		reply.HandshakeType = HSTypeAgreement
@@ -244,18 +311,29 @@ func (l *Listener) handleHandshake(peer *net.UDPAddr, hdr *Header, body []byte)
 		l.sendControl(peer, CtrlHandshake, 0, 0, sess, reply.Marshal())
 
 	case HSTypeConclusion:
-		if hs.SyncCookie != sess.cookie {
-			//Wrong cookie — quietly drop. Real SRT rejects.
-			return
-		}
-		sess.peerSocketID = hs.SrtSocketID
-		sess.expectedSeq = hs.InitialSequence
-		sess.concluded = true
-
 		reply := *hs
 		reply.HandshakeType = HSTypeConclusion
-		reply.SrtSocketID = sess.ourSocketID
 		reply.ExtensionField = 0 //no extensions in our reply
+		if sess == nil || sess.cookie != hs.SyncCookie {
+			if pending == nil || pending.cookie != hs.SyncCookie {
+				//Wrong cookie — quietly drop. Real SRT rejects.
+				return
+			}
+			l.drop(key) //the peer starts over
+			sess = pending
+			sess.peerSocketID = hs.SrtSocketID
+			sess.expectedSeq = hs.InitialSequence & seqMask
+			if l.OnOpen != nil && l.OnOpen(sess.streamID) != nil {
+				reply.HandshakeType = HSTypeRejection
+			} else {
+				l.mu.Lock()
+				delete(l.pending, key)
+				l.sessions[key] = sess
+				l.mu.Unlock()
+			}
+		}
+		sess.lastSeen = time.Now()
+		reply.SrtSocketID = sess.ourSocketID
 		l.sendControl(peer, CtrlHandshake, 0, 0, sess, reply.Marshal())
 	}
 }
-- 
2.43.0


From 68298bb7f952481d69f0858be223888931e69887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:05 +0000
Subject: [PATCH 19/57] fix: keep lost packets, tables and several frames apart
 when demultiplexing SRT streams

---
 libsrt/tsdemux.go | 298 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 207 insertions(+), 91 deletions(-)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 51d0ba4..3472535 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -48,15 +48,100 @@ type Demuxer struct {
 	pmtPID    uint16
 	videoPID  uint16
 	audioPID  uint16
-	videoBuf  []byte
-	videoTS   uint64 //PTS of in-progress PES (90 kHz)
-	videoDTS  uint64
-	audioBuf  []byte
-	audioTS   uint64
+	pat       tsUnit
+	pmt       tsUnit
+	video     tsUnit
+	audio     tsUnit
 	OnVideo   func(AccessUnit)
 	OnAudio   func(AudioFrame)
 }
 
+// tsUnit collects the section or PES packet in progress on one PID. A
+// packet lost on the way takes only the unit it belonged to with it.
+type tsUnit struct {
+	buf    []byte
+	open   bool
+	cc     byte
+	synced bool //cc is known
+}
+
+const maxUnitSize = 16 << 20
+
+// accept follows the continuity counter. It returns false for a packet
+// that repeats the last one.
+func (u *tsUnit) accept(cc byte, discontinuity bool) bool {
+	if u.synced && !discontinuity {
+		if cc == u.cc {
+			return false
+		}
+		if cc != (u.cc+1)&0x0F {
+			u.drop()
+		}
+	}
+	u.cc, u.synced = cc, true
+	return true
+}
+
+func (u *tsUnit) start(payload []byte) {
+	u.buf = append(u.buf[:0], payload...)
+	u.open = true
+}
+
+func (u *tsUnit) add(payload []byte) {
+	if !u.open {
+		return
+	}
+	u.buf = append(u.buf, payload...)
+	if len(u.buf) > maxUnitSize {
+		u.drop()
+	}
+}
+
+func (u *tsUnit) drop() {
+	u.buf = u.buf[:0]
+	u.open = false
+}
+
+// section returns the next complete section, if there is one.
+func (u *tsUnit) section() []byte {
+	if !u.open || len(u.buf) < 3 || u.buf[0] == 0xFF {
+		return nil
+	}
+	n := int(binary.BigEndian.Uint16(u.buf[1:3])&0x0FFF) + 3
+	if len(u.buf) < n {
+		return nil
+	}
+	sec := append([]byte(nil), u.buf[:n]...)
+	u.buf = append(u.buf[:0], u.buf[n:]...)
+	return sec
+}
+
+// pesComplete reports whether all of a PES packet of stated length is here.
+func (u *tsUnit) pesComplete() bool {
+	if !u.open || len(u.buf) < 6 {
+		return false
+	}
+	n := int(binary.BigEndian.Uint16(u.buf[4:6]))
+	return n != 0 && len(u.buf) >= 6+n
+}
+
+// takePES ends the PES packet in progress and returns what it carries.
+func (u *tsUnit) takePES() (pts, dts uint64, body []byte, ok bool) {
+	defer u.drop()
+	if !u.open || len(u.buf) < 6 {
+		return
+	}
+	buf := u.buf
+	if n := int(binary.BigEndian.Uint16(buf[4:6])); n != 0 {
+		if len(buf) < 6+n {
+			return //damaged
+		}
+		buf = buf[:6+n]
+	}
+	pts, dts, body, ok = parsePESHeader(buf)
+	return pts, dts, append([]byte(nil), body...), ok && len(body) > 0
+}
+
 // NewDemuxer returns a fresh demuxer. Callbacks should be set before
 // calling Feed.
 func NewDemuxer() *Demuxer { return &Demuxer{} }
@@ -77,52 +162,102 @@ func (d *Demuxer) Feed(buf []byte) {
 		pusi := pkt[1]&0x40 != 0
 		afCtrl := (pkt[3] >> 4) & 0x03 //adaptation field control
 		off := 4
+		discontinuity := false
 		if afCtrl == 2 || afCtrl == 3 {
 			afLen := int(pkt[4])
 			off += 1 + afLen
 			if off > TSPacketSize {
 				continue
 			}
+			discontinuity = afLen > 0 && pkt[5]&0x80 != 0
 		}
 		if afCtrl == 0 || afCtrl == 2 {
 			continue //no payload
 		}
 		payload := pkt[off:]
 
+		var unit *tsUnit
 		switch pid {
 		case 0x0000:
-			d.parsePAT(payload)
+			unit = &d.pat
 		case d.pmtPID:
-			d.parsePMT(payload)
+			unit = &d.pmt
 		case d.videoPID:
-			d.feedVideo(pusi, payload)
+			unit = &d.video
 		case d.audioPID:
-			d.feedAudio(pusi, payload)
+			unit = &d.audio
+		default:
+			continue
+		}
+		if !unit.accept(pkt[3]&0x0F, discontinuity) {
+			continue
+		}
+		switch unit {
+		case &d.pat:
+			feedSections(unit, pusi, payload, d.parsePAT)
+		case &d.pmt:
+			feedSections(unit, pusi, payload, d.parsePMT)
+		case &d.video:
+			feedPES(unit, pusi, payload, d.flushVideo)
+		case &d.audio:
+			feedPES(unit, pusi, payload, d.flushAudio)
+		}
+	}
+}
+
+// Flush hands on what is still being collected at the end of the stream.
+func (d *Demuxer) Flush() {
+	d.flushVideo()
+	d.flushAudio()
+}
+
+func feedSections(u *tsUnit, pusi bool, payload []byte, parse func([]byte)) {
+	each := func() {
+		for sec := u.section(); sec != nil; sec = u.section() {
+			parse(sec)
+		}
+	}
+	if pusi {
+		if len(payload) < 1 || 1+int(payload[0]) > len(payload) {
+			u.drop()
+			return
 		}
+		pointer := 1 + int(payload[0])
+		u.add(payload[1:pointer])
+		each()
+		u.start(payload[pointer:])
+	} else {
+		u.add(payload)
+	}
+	each()
+}
+
+func feedPES(u *tsUnit, pusi bool, payload []byte, flush func()) {
+	if pusi {
+		flush()
+		u.start(payload)
+	} else {
+		u.add(payload)
+	}
+	if u.pesComplete() {
+		flush()
 	}
 }
 
 // parsePAT pulls the first PMT entry from the Program Association
 // Table. We only support a single program; multi-program TS would need
 // a richer accumulator.
-func (d *Demuxer) parsePAT(payload []byte) {
-	if len(payload) < 2 {
+func (d *Demuxer) parsePAT(sec []byte) {
+	if sec[0] != 0x00 || len(sec) < 12 || sec[5]&0x01 == 0 {
 		return
 	}
-	//Skip pointer + section header (8 bytes).
-	pointer := int(payload[0])
-	if 1+pointer+8 > len(payload) {
-		return
-	}
-	body := payload[1+pointer:]
-	//Section length covers everything from after section_length itself
-	//up to and including the CRC. For our needs we just walk the
-	//program loop right after the 8-byte fixed header.
-	for off := 8; off+4 <= len(body)-4; off += 4 {
-		programNumber := binary.BigEndian.Uint16(body[off : off+2])
-		pid := binary.BigEndian.Uint16(body[off+2:off+4]) & 0x1FFF
+	for off := 8; off+4 <= len(sec)-4; off += 4 {
+		programNumber := binary.BigEndian.Uint16(sec[off : off+2])
+		pid := binary.BigEndian.Uint16(sec[off+2:off+4]) & 0x1FFF
 		if programNumber != 0 {
-			d.pmtPID = pid
+			if pid != d.pmtPID {
+				d.pmtPID, d.pmt = pid, tsUnit{}
+			}
 			return
 		}
 	}
@@ -131,98 +266,79 @@ func (d *Demuxer) parsePAT(payload []byte) {
 // parsePMT fishes the audio/video stream PIDs out of a Program Map
 // Table. stream_type 0x1B = H.264, 0x24 = HEVC, 0x0F = AAC ADTS,
 // 0x11 = LATM (we don't handle), 0xC1 = AC-3 (skipped).
-func (d *Demuxer) parsePMT(payload []byte) {
-	if len(payload) < 2 {
-		return
-	}
-	pointer := int(payload[0])
-	body := payload[1+pointer:]
-	if len(body) < 12 {
+func (d *Demuxer) parsePMT(sec []byte) {
+	if sec[0] != 0x02 || len(sec) < 16 || sec[5]&0x01 == 0 {
 		return
 	}
-	sectionLen := int(binary.BigEndian.Uint16(body[1:3])&0x0FFF) + 3
-	if sectionLen > len(body) {
-		sectionLen = len(body)
-	}
-	progInfoLen := int(binary.BigEndian.Uint16(body[10:12]) & 0x0FFF)
-	off := 12 + progInfoLen
-	for off+5 <= sectionLen-4 {
-		streamType := body[off]
-		streamPID := binary.BigEndian.Uint16(body[off+1:off+3]) & 0x1FFF
-		esInfoLen := int(binary.BigEndian.Uint16(body[off+3:off+5]) & 0x0FFF)
+	progInfoLen := int(binary.BigEndian.Uint16(sec[10:12]) & 0x0FFF)
+	var videoPID, audioPID uint16
+	for off := 12 + progInfoLen; off+5 <= len(sec)-4; {
+		streamType := sec[off]
+		streamPID := binary.BigEndian.Uint16(sec[off+1:off+3]) & 0x1FFF
+		esInfoLen := int(binary.BigEndian.Uint16(sec[off+3:off+5]) & 0x0FFF)
 		off += 5 + esInfoLen
 		switch streamType {
 		case 0x1B, 0x24:
-			d.videoPID = streamPID
+			videoPID = streamPID
 		case 0x0F:
-			d.audioPID = streamPID
+			audioPID = streamPID
 		}
 	}
-}
-
-// feedVideo / feedAudio buffer PES bytes, flushing on PUSI boundaries.
-// Internally we treat one PES unit as one access unit (true for live
-// MPEG-TS produced by FFmpeg with -codec copy from H.264).
-func (d *Demuxer) feedVideo(pusi bool, payload []byte) {
-	if pusi && len(d.videoBuf) > 0 {
+	if videoPID != d.videoPID {
 		d.flushVideo()
+		d.videoPID, d.video = videoPID, tsUnit{}
 	}
-	if pusi {
-		pts, dts, body, ok := parsePESHeader(payload)
-		if !ok {
-			return
-		}
-		d.videoTS = pts
-		d.videoDTS = dts
-		d.videoBuf = append(d.videoBuf[:0], body...)
-		return
+	if audioPID != d.audioPID {
+		d.flushAudio()
+		d.audioPID, d.audio = audioPID, tsUnit{}
 	}
-	d.videoBuf = append(d.videoBuf, payload...)
 }
 
+// flushVideo hands on the collected PES packet as one access unit (true
+// for live MPEG-TS produced by FFmpeg with -codec copy from H.264).
 func (d *Demuxer) flushVideo() {
-	if d.OnVideo == nil {
-		d.videoBuf = d.videoBuf[:0]
+	pts, dts, body, ok := d.video.takePES()
+	if !ok || d.OnVideo == nil {
 		return
 	}
-	au := AccessUnit{
-		PTS: d.videoTS,
-		DTS: d.videoDTS,
-		NAL: append([]byte(nil), d.videoBuf...),
-		Key: containsAnnexBKeyframe(d.videoBuf),
-	}
-	d.videoBuf = d.videoBuf[:0]
-	d.OnVideo(au)
+	d.OnVideo(AccessUnit{
+		PTS: pts,
+		DTS: dts,
+		NAL: body,
+		Key: containsAnnexBKeyframe(body),
+	})
 }
 
-func (d *Demuxer) feedAudio(pusi bool, payload []byte) {
-	if pusi && len(d.audioBuf) > 0 {
-		d.flushAudio()
+// flushAudio hands on every ADTS frame of the collected PES packet.
+func (d *Demuxer) flushAudio() {
+	pts, _, body, ok := d.audio.takePES()
+	if !ok || d.OnAudio == nil {
+		return
 	}
-	if pusi {
-		pts, _, body, ok := parsePESHeader(payload)
-		if !ok {
+	elapsed := uint64(0) //samples since pts
+	for len(body) >= 7 && body[0] == 0xFF && body[1]&0xF0 == 0xF0 {
+		n := int(body[3]&0x03)<<11 | int(body[4])<<3 | int(body[5])>>5
+		rate := uint64(0)
+		if i := int(body[2]>>2) & 0x0F; i < len(adtsRates) {
+			rate = adtsRates[i]
+		}
+		if n < 7 || n > len(body) || rate == 0 {
 			return
 		}
-		d.audioTS = pts
-		d.audioBuf = append(d.audioBuf[:0], body...)
-		return
+		d.OnAudio(AudioFrame{
+			PTS:  (pts + elapsed*90000/rate) & (1<<33 - 1),
+			Data: body[:n:n],
+		})
+		elapsed += 1024 * (uint64(body[6]&0x03) + 1)
+		body = body[n:]
 	}
-	d.audioBuf = append(d.audioBuf, payload...)
-}
-
-func (d *Demuxer) flushAudio() {
-	if d.OnAudio == nil {
-		d.audioBuf = d.audioBuf[:0]
-		return
+	if elapsed == 0 {
+		d.OnAudio(AudioFrame{PTS: pts, Data: body}) //not ADTS
 	}
-	d.OnAudio(AudioFrame{
-		PTS:  d.audioTS,
-		Data: append([]byte(nil), d.audioBuf...),
-	})
-	d.audioBuf = d.audioBuf[:0]
 }
 
+var adtsRates = []uint64{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
+
 // parsePESHeader pulls the PTS (and DTS, when present) out of a PES
 // header and returns the residual elementary-stream body. The header
 // is 9 bytes fixed + variable-length PES header data.
-- 
2.43.0


From d05ef1bf3bd5f79f07e07bdd83f593bec6bc90e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:54 +0000
Subject: [PATCH 20/57] fix: end SRT streams with their caller and follow their
 clock and headers

---
 librtmp/srt_server.go | 177 +++++++++++++++++++++++++++++++-----------
 1 file changed, 130 insertions(+), 47 deletions(-)

diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index a27ac79..7d6be22 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -1,6 +1,7 @@
 package librtmp
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"sync"
@@ -35,10 +36,14 @@ type srtBridge struct {
 	// and emit the FLV video sequence header. Same idea for AAC: pull
 	// the codec config out of the first ADTS frame and emit the audio
 	// sequence header.
-	emittedVideoSeqHdr bool
-	emittedAudioSeqHdr bool
-	cachedSPS          []byte
-	cachedPPS          []byte
+	videoSeqHdr []byte //as last emitted
+	audioSeqHdr []byte
+	cachedSPS   [][]byte
+	cachedPPS   [][]byte
+
+	busy  bool  //a caller is admitted
+	clock int64 //latest timestamp, continued across the 33-bit wrap
+	timed bool  //clock is set
 }
 
 // startSRT installs the listener; called from server.Handler() once
@@ -47,16 +52,16 @@ func startSRT(srv *server, spec srtSpec) {
 	br := &srtBridge{
 		spec:   spec,
 		server: srv,
-		demux:  libsrt.NewDemuxer(),
 	}
-	br.demux.OnVideo = br.onVideo
-	br.demux.OnAudio = br.onAudio
+	br.reset()
 
 	listener, err := libsrt.Listen(spec.address, spec.streamID, br.onData)
 	if err != nil {
 		fmt.Printf("srt listen %s: %v\n", spec.address, err)
 		return
 	}
+	listener.OnOpen = br.onOpen
+	listener.OnClose = br.onClose
 	go func() {
 		if err := listener.Run(); err != nil {
 			fmt.Printf("srt run %s: %v\n", spec.address, err)
@@ -64,6 +69,50 @@ func startSRT(srv *server, spec srtSpec) {
 	}()
 }
 
+// reset prepares for a new caller.
+func (br *srtBridge) reset() {
+	br.room = nil
+	br.demux = libsrt.NewDemuxer()
+	br.demux.OnVideo = br.onVideo
+	br.demux.OnAudio = br.onAudio
+	br.videoSeqHdr, br.audioSeqHdr = nil, nil
+	br.cachedSPS, br.cachedPPS = nil, nil
+	br.clock, br.timed = 0, false
+}
+
+// onOpen refuses a second caller: the listener feeds one stream.
+func (br *srtBridge) onOpen(streamID string) error {
+	if br.busy {
+		return fmt.Errorf("srt: stream %q already publishing", br.spec.streamID)
+	}
+	br.busy = true
+	return nil
+}
+
+// onClose ends the stream of the caller that left.
+func (br *srtBridge) onClose(streamID string) {
+	br.busy = false
+	if br.room == nil {
+		return
+	}
+	br.demux.Flush()
+	br.server.apps[br.spec.app].Release(br.room)
+	br.reset()
+}
+
+// millis continues a 33-bit 90 kHz timestamp from the ones before it.
+func (br *srtBridge) millis(ts uint64) int64 {
+	if !br.timed {
+		br.clock, br.timed = int64(ts), true
+	}
+	delta := int64(ts-uint64(br.clock)) << 31 >> 31
+	if br.clock+delta < 0 {
+		return 0
+	}
+	br.clock += delta
+	return br.clock / 90
+}
+
 // onData feeds raw TS bytes from the SRT listener into the demuxer.
 // Lazy-allocates the Room on first invocation so empty publishes don't
 // pollute the App's room map.
@@ -100,7 +149,7 @@ func (br *srtBridge) onData(streamID string, payload []byte) error {
 // header, then continue with NALU tags.
 func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 	nals := splitAnnexB(au.NAL)
-	var sps, pps []byte
+	var sps, pps [][]byte
 	var pictureNALs [][]byte
 	for _, n := range nals {
 		if len(n) == 0 {
@@ -108,34 +157,39 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 		}
 		switch n[0] & 0x1F {
 		case 7:
-			sps = n
+			sps = append(sps, n)
 		case 8:
-			pps = n
+			pps = append(pps, n)
 		default:
 			pictureNALs = append(pictureNALs, n)
 		}
 	}
-	if !br.emittedVideoSeqHdr {
-		if sps != nil {
-			br.cachedSPS = sps
-		}
-		if pps != nil {
-			br.cachedPPS = pps
+	if sps != nil {
+		br.cachedSPS = sps
+	}
+	if pps != nil {
+		br.cachedPPS = pps
+	}
+	seq := avcConfig(br.cachedSPS, br.cachedPPS)
+	if seq == nil {
+		return //no viewer could decode it
+	}
+	if !bytes.Equal(seq, br.videoSeqHdr) {
+		hdrTS := uint32(0)
+		if br.videoSeqHdr != nil { //changed mid-stream
+			hdrTS = uint32(br.millis(au.DTS))
 		}
-		if br.cachedSPS != nil && br.cachedPPS != nil {
-			seq := buildAVCSequenceHeader(br.cachedSPS, br.cachedPPS)
-			vt := &libflv.VideoTag{
-				TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: 0},
-				FrameType:     libflv.KEY_FRAME,
-				CodecID:       libflv.FLV_VIDEO_AVC,
-				AVCPacketType: libflv.AVC_SEQUENCE_HEADER,
-				VideoData:     seq,
-			}
-			vt.DataSize = uint32(len(vt.Data()))
-			br.room.setVideoSequenceHeader(vt)
-			br.room.GOP.WriteMeta(vt)
-			br.emittedVideoSeqHdr = true
+		vt := &libflv.VideoTag{
+			TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: hdrTS},
+			FrameType:     libflv.KEY_FRAME,
+			CodecID:       libflv.FLV_VIDEO_AVC,
+			AVCPacketType: libflv.AVC_SEQUENCE_HEADER,
+			VideoData:     seq,
 		}
+		vt.DataSize = uint32(len(vt.Data()))
+		br.room.setVideoSequenceHeader(vt)
+		br.room.GOP.WriteMeta(vt)
+		br.videoSeqHdr = seq
 	}
 	if len(pictureNALs) == 0 {
 		return
@@ -151,8 +205,9 @@ func (br *srtBridge) onVideo(au libsrt.AccessUnit) {
 		avcc = append(avcc, sz[:]...)
 		avcc = append(avcc, n...)
 	}
-	tagTS := uint32(au.DTS / 90) //PTS/DTS in 90 kHz; FLV in ms
-	cts := uint32((au.PTS - au.DTS) / 90)
+	dts, pts := br.millis(au.DTS), br.millis(au.PTS)
+	tagTS := uint32(dts) //PTS/DTS in 90 kHz; FLV in ms
+	cts := uint32(pts - dts)
 	vt := &libflv.VideoTag{
 		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
 		FrameType:     frameType,
@@ -180,23 +235,34 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 	}
 	profile := (af.Data[2] >> 6) & 0x03                              //2 bits
 	sampleIndex := (af.Data[2] >> 2) & 0x0F                          //4 bits
+	hdrLen := 7
+	if af.Data[1]&0x01 == 0 {
+		hdrLen = 9 //with CRC
+	}
+	if len(af.Data) < hdrLen {
+		return
+	}
 	channels := ((af.Data[2] & 0x01) << 2) | ((af.Data[3] >> 6) & 0x03)
-	if !br.emittedAudioSeqHdr {
-		//AAC AudioSpecificConfig per ISO/IEC 14496-3:
-		//  5 bits profile (audio object type, ADTS profile + 1)
-		//  4 bits sampling frequency index
-		//  4 bits channel config
-		//  3 bits pad
-		objType := uint8(profile) + 1
-		var asc [2]byte
-		asc[0] = (objType<<3)&0xF8 | (sampleIndex>>1)&0x07
-		asc[1] = ((sampleIndex & 0x01) << 7) | (channels&0x0F)<<3
+	//AAC AudioSpecificConfig per ISO/IEC 14496-3:
+	//  5 bits profile (audio object type, ADTS profile + 1)
+	//  4 bits sampling frequency index
+	//  4 bits channel config
+	//  3 bits pad
+	objType := uint8(profile) + 1
+	var asc [2]byte
+	asc[0] = (objType<<3)&0xF8 | (sampleIndex>>1)&0x07
+	asc[1] = ((sampleIndex & 0x01) << 7) | (channels&0x0F)<<3
+	if !bytes.Equal(asc[:], br.audioSeqHdr) {
 		soundType := uint8(libflv.SND_STEREO)
 		if channels == 1 {
 			soundType = libflv.SND_MONO
 		}
+		hdrTS := uint32(0)
+		if br.audioSeqHdr != nil { //changed mid-stream
+			hdrTS = uint32(br.millis(af.PTS))
+		}
 		seq := &libflv.AudioTag{
-			TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: 0},
+			TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: hdrTS},
 			SoundFormat:   libflv.FLV_AUDIO_AAC,
 			SoundRate:     3,
 			SoundSize:     libflv.SND_16_BIT,
@@ -207,20 +273,20 @@ func (br *srtBridge) onAudio(af libsrt.AudioFrame) {
 		seq.DataSize = uint32(len(seq.Data()))
 		br.room.setAudioSequenceHeader(seq)
 		br.room.GOP.WriteMeta(seq)
-		br.emittedAudioSeqHdr = true
+		br.audioSeqHdr = asc[:]
 	}
 	soundType := uint8(libflv.SND_STEREO)
 	if channels == 1 {
 		soundType = libflv.SND_MONO
 	}
 	at := &libflv.AudioTag{
-		TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: uint32(af.PTS / 90)},
+		TagBase:       libflv.TagBase{TagType: libflv.AUDIO_TAG, TimeStamp: uint32(br.millis(af.PTS))},
 		SoundFormat:   libflv.FLV_AUDIO_AAC,
 		SoundRate:     3,
 		SoundSize:     libflv.SND_16_BIT,
 		SoundType:     soundType,
 		AACPacketType: libflv.AAC_RAW,
-		SoundData:     af.Data[7:], //strip 7-byte ADTS header
+		SoundData:     af.Data[hdrLen:], //strip ADTS header
 	}
 	at.DataSize = uint32(len(at.Data()))
 	br.room.GOP.Write(at)
@@ -262,14 +328,31 @@ func splitAnnexB(buf []byte) [][]byte {
 				break
 			}
 		}
-		if end > nalStart {
-			out = append(out, buf[nalStart:end])
+		nal := bytes.TrimRight(buf[nalStart:end], "\x00")
+		if len(nal) > 0 {
+			out = append(out, nal)
 		}
 		i = end
 	}
 	return out
 }
 
+// avcConfig is buildAVCSequenceHeader for any number of parameter sets.
+func avcConfig(sps, pps [][]byte) []byte {
+	if len(sps) == 0 || len(sps) > 31 || len(pps) == 0 || len(pps) > 255 || len(sps[0]) < 4 {
+		return nil
+	}
+	out := []byte{0x01, sps[0][1], sps[0][2], sps[0][3], 0xFF, 0xE0 | byte(len(sps))}
+	for _, n := range sps {
+		out = append(append(out, byte(len(n)>>8), byte(len(n))), n...)
+	}
+	out = append(out, byte(len(pps)))
+	for _, n := range pps {
+		out = append(append(out, byte(len(n)>>8), byte(len(n))), n...)
+	}
+	return out
+}
+
 // silence the unused-time import in case the demuxer-feed path needs
 // time.Time later for stats.
 var _ = time.Now
-- 
2.43.0


From 7d172b1ede8b778343cce47c29f21b2fe07b3fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:16 +0000
Subject: [PATCH 21/57] fix: skip only the damaged packet of an SRT datagram

---
 libsrt/tsdemux.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libsrt/tsdemux.go b/libsrt/tsdemux.go
index 3472535..c16eb7f 100644
--- a/libsrt/tsdemux.go
+++ b/libsrt/tsdemux.go
@@ -153,10 +153,9 @@ func (d *Demuxer) Feed(buf []byte) {
 	for len(buf) >= TSPacketSize {
 		pkt := buf[:TSPacketSize]
 		buf = buf[TSPacketSize:]
-		if pkt[0] != 0x47 {
-			//Resync would be smart but rare in practice; bail out
-			//on this datagram.
-			return
+		if pkt[0] != 0x47 || pkt[1]&0x80 != 0 {
+			//Damaged; its neighbours in the datagram may be fine.
+			continue
 		}
 		pid := uint16(pkt[1]&0x1F)<<8 | uint16(pkt[2])
 		pusi := pkt[1]&0x40 != 0
-- 
2.43.0


From 4bc94314d0f50618bd14a5c0f2eadd13165df63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 22/57] fix: never hand on RTP units with missing or cut parts

---
 librtsp/aac.go        |  4 ++--
 librtsp/rtp_unpack.go | 17 ++++++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/librtsp/aac.go b/librtsp/aac.go
index c136c21..873429d 100644
--- a/librtsp/aac.go
+++ b/librtsp/aac.go
@@ -18,8 +18,8 @@ func PackAACFrame(frame []byte) []byte {
 	}
 	if len(frame) >= 1<<13 {
 		//13-bit AU-size limit. Live AAC frames are ≤ ~1.5 KB so this
-		//ceiling is practically never hit; fail-soft by truncating.
-		frame = frame[:(1<<13)-1]
+		//ceiling is practically never hit; a cut frame is no use.
+		return nil
 	}
 	out := make([]byte, 4+len(frame))
 	//AU-headers-length: 16 bits in network order.
diff --git a/librtsp/rtp_unpack.go b/librtsp/rtp_unpack.go
index 0a63d49..11d6fb4 100644
--- a/librtsp/rtp_unpack.go
+++ b/librtsp/rtp_unpack.go
@@ -76,6 +76,8 @@ type H264Reassembler struct {
 	fuBuf     []byte //in-progress FU-A reassembly
 	pending   [][]byte
 	pendingTS uint32
+	started   bool
+	nextSeq   uint16
 }
 
 // Push feeds one parsed RTP packet into the reassembler. Returns the
@@ -83,9 +85,19 @@ type H264Reassembler struct {
 // on this packet) plus the access-unit timestamp; otherwise returns
 // nil to indicate "still buffering".
 func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
+	if r.started && pkt.SequenceNum != r.nextSeq {
+		//Packets are missing: what is left of a fragmented NAL cannot
+		//be completed.
+		r.fuBuf = nil
+	}
+	r.started, r.nextSeq = true, pkt.SequenceNum+1
 	if len(pkt.Payload) == 0 {
 		return nil, 0
 	}
+	if pkt.Timestamp != r.pendingTS {
+		//The end of the previous access unit got lost.
+		r.fuBuf, r.pending = nil, nil
+	}
 	r.pendingTS = pkt.Timestamp
 	hdr := pkt.Payload[0]
 	nalType := hdr & 0x1F
@@ -100,7 +112,7 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 		for len(body) >= 2 {
 			n := int(binary.BigEndian.Uint16(body[:2]))
 			body = body[2:]
-			if n > len(body) {
+			if n == 0 || n > len(body) {
 				break
 			}
 			r.pending = append(r.pending, append([]byte(nil), body[:n]...))
@@ -121,6 +133,9 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 			//indicator's NRI bits + the FU header's type.
 			r.fuBuf = []byte{(hdr & 0xE0) | origType}
 		}
+		if r.fuBuf == nil {
+			break //its start got lost
+		}
 		r.fuBuf = append(r.fuBuf, pkt.Payload[2:]...)
 		if end {
 			r.pending = append(r.pending, r.fuBuf)
-- 
2.43.0


From 269b41909fb171748a11a8fcbb9b4089fdac24d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 23/57] fix: read SDP tracks by their own attributes and codecs
 and bound RTSP bodies

---
 librtsp/message.go   |  7 +++++
 librtsp/sdp.go       |  7 ++---
 librtsp/sdp_parse.go | 72 +++++++++++++++++++++++++++-----------------
 3 files changed, 53 insertions(+), 33 deletions(-)

diff --git a/librtsp/message.go b/librtsp/message.go
index 0a1a222..530f435 100644
--- a/librtsp/message.go
+++ b/librtsp/message.go
@@ -24,6 +24,10 @@ import (
 // and emit on outbound responses.
 const rtspVersion = "RTSP/1.0"
 
+// maxBodySize bounds what a request may announce: bodies are SDP or
+// parameter lists.
+const maxBodySize = 1 << 20
+
 // Request is one parsed RTSP request — methods reuse Go's
 // http.Header so callers can use Get / Set / Add idiomatically.
 type Request struct {
@@ -76,6 +80,9 @@ func ReadRequest(r *bufio.Reader) (*Request, error) {
 		if err != nil {
 			return nil, fmt.Errorf("bad Content-Length: %v", err)
 		}
+		if n < 0 || n > maxBodySize {
+			return nil, fmt.Errorf("bad Content-Length: %d", n)
+		}
 		body := make([]byte, n)
 		if _, err := io.ReadFull(r, body); err != nil {
 			return nil, err
diff --git a/librtsp/sdp.go b/librtsp/sdp.go
index 5c2353f..cce0b65 100644
--- a/librtsp/sdp.go
+++ b/librtsp/sdp.go
@@ -98,12 +98,9 @@ func writeHEVC(sb *strings.Builder, vps, sps, pps []byte) {
 // Channels signalled via the rtpmap parameter; SDP usually carries
 // a=fmtp:97 sprop-stereo=1 for 2-channel content.
 func writeOpus(sb *strings.Builder, chans int) {
-	if chans <= 0 {
-		chans = 2
-	}
 	sb.WriteString("m=audio 0 RTP/AVP 97\r\n")
-	fmt.Fprintf(sb, "a=rtpmap:97 opus/48000/%d\r\n", chans)
-	if chans == 2 {
+	sb.WriteString("a=rtpmap:97 opus/48000/2\r\n") //always 2, §7
+	if chans != 1 {
 		sb.WriteString("a=fmtp:97 sprop-stereo=1\r\n")
 	}
 	sb.WriteString("a=control:trackID=1\r\n")
diff --git a/librtsp/sdp_parse.go b/librtsp/sdp_parse.go
index ecf258e..3e71258 100644
--- a/librtsp/sdp_parse.go
+++ b/librtsp/sdp_parse.go
@@ -17,6 +17,7 @@ type ParsedSDP struct {
 	VideoPayloadType uint8
 	SPS            []byte //RBSP-stripped, no start code
 	PPS            []byte
+	ParameterSets  [][]byte //every SPS and PPS stated, in order
 
 	HasAudio        bool
 	AudioControl    string
@@ -31,6 +32,7 @@ type ParsedSDP struct {
 func ParseSDP(body []byte) (*ParsedSDP, error) {
 	out := &ParsedSDP{}
 	var current string //"video" / "audio" / ""
+	var seenVideo, seenAudio bool
 	for _, raw := range strings.Split(string(body), "\n") {
 		line := strings.TrimRight(raw, "\r")
 		if len(line) < 2 || line[1] != '=' {
@@ -45,14 +47,14 @@ func ParseSDP(body []byte) (*ParsedSDP, error) {
 				continue
 			}
 			pt, _ := strconv.Atoi(fields[3])
-			switch fields[0] {
-			case "video":
-				current = "video"
-				out.HasVideo = true
+			switch {
+			case fields[0] == "video" && !seenVideo:
+				current, seenVideo = "video", true
+				out.HasVideo = pt >= 96 //no static payload type is H.264
 				out.VideoPayloadType = uint8(pt)
-			case "audio":
-				current = "audio"
-				out.HasAudio = true
+			case fields[0] == "audio" && !seenAudio:
+				current, seenAudio = "audio", true
+				out.HasAudio = pt >= 96 //nor AAC-hbr
 				out.AudioPayloadType = uint8(pt)
 			default:
 				current = ""
@@ -81,19 +83,21 @@ func parseAttribute(out *ParsedSDP, current, value string) {
 		//fmtp:<pt> key=value;key=value
 		rest := strings.TrimPrefix(value, "fmtp:")
 		fields := strings.SplitN(rest, " ", 2)
-		if len(fields) < 2 {
+		if len(fields) < 2 || !out.describes(current, fields[0]) {
 			return
 		}
 		params := parseFmtpParams(fields[1])
 		switch current {
 		case "video":
 			if pseq, ok := params["sprop-parameter-sets"]; ok {
-				sps, pps := splitSpropParameterSets(pseq)
-				if len(sps) > 0 {
-					out.SPS = sps
-				}
-				if len(pps) > 0 {
-					out.PPS = pps
+				out.ParameterSets = splitSpropParameterSets(pseq)
+				for _, set := range out.ParameterSets {
+					if set[0]&0x1F == 7 && out.SPS == nil {
+						out.SPS = set
+					}
+					if set[0]&0x1F == 8 && out.PPS == nil {
+						out.PPS = set
+					}
 				}
 			}
 		case "audio":
@@ -107,10 +111,16 @@ func parseAttribute(out *ParsedSDP, current, value string) {
 		//rtpmap:97 mpeg4-generic/44100/2
 		rest := strings.TrimPrefix(value, "rtpmap:")
 		fields := strings.Fields(rest)
-		if len(fields) < 2 {
+		if len(fields) < 2 || !out.describes(current, fields[0]) {
 			return
 		}
 		parts := strings.Split(fields[1], "/")
+		switch {
+		case current == "video" && !strings.EqualFold(parts[0], "H264"):
+			out.HasVideo = false
+		case current == "audio" && !strings.EqualFold(parts[0], "mpeg4-generic"):
+			out.HasAudio = false
+		}
 		if current == "audio" && len(parts) >= 2 {
 			rate, _ := strconv.Atoi(parts[1])
 			out.AudioRate = rate
@@ -143,21 +153,27 @@ func parseFmtpParams(s string) map[string]string {
 	return out
 }
 
-// splitSpropParameterSets decodes one or more comma-separated base64
-// NAL units. The first is conventionally the SPS, the second the PPS.
-func splitSpropParameterSets(s string) (sps, pps []byte) {
-	parts := strings.Split(s, ",")
-	for i, p := range parts {
-		b, err := base64.StdEncoding.DecodeString(p)
-		if err != nil {
+// describes reports whether an attribute for payload type pt belongs to
+// the track of the current media section.
+func (out *ParsedSDP) describes(current, pt string) bool {
+	n, err := strconv.Atoi(pt)
+	switch current {
+	case "video":
+		return err == nil && n == int(out.VideoPayloadType)
+	case "audio":
+		return err == nil && n == int(out.AudioPayloadType)
+	}
+	return false
+}
+
+// splitSpropParameterSets decodes comma-separated base64 NAL units.
+func splitSpropParameterSets(s string) (sets [][]byte) {
+	for _, p := range strings.Split(s, ",") {
+		b, err := base64.StdEncoding.DecodeString(strings.TrimSpace(p))
+		if err != nil || len(b) == 0 {
 			continue
 		}
-		switch i {
-		case 0:
-			sps = b
-		case 1:
-			pps = b
-		}
+		sets = append(sets, b)
 	}
 	return
 }
-- 
2.43.0


From c34d3f304173afc0173502f2ba32d96093c7a2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:47 +0000
Subject: [PATCH 24/57] fix: ignore repeated and late RTP packets

---
 librtsp/rtp_unpack.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/librtsp/rtp_unpack.go b/librtsp/rtp_unpack.go
index 11d6fb4..72403f5 100644
--- a/librtsp/rtp_unpack.go
+++ b/librtsp/rtp_unpack.go
@@ -66,6 +66,10 @@ func ParseRTP(buf []byte) (*RTPPacket, error) {
 	}, nil
 }
 
+// maxMisorder is how far behind a packet may be and still belong to the
+// same run of sequence numbers (RFC 3550 §A.1).
+const maxMisorder = 100
+
 // H264Reassembler accumulates H.264 NAL units across multiple RTP
 // packets. Single-NAL packets emit immediately; FU-A fragmented NALs
 // are buffered until the End-of-fragment bit fires; STAP-A aggregation
@@ -85,6 +89,9 @@ type H264Reassembler struct {
 // on this packet) plus the access-unit timestamp; otherwise returns
 // nil to indicate "still buffering".
 func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
+	if d := int16(pkt.SequenceNum - r.nextSeq); r.started && d < 0 && d >= -maxMisorder {
+		return nil, 0 //duplicate, or too late to be of use
+	}
 	if r.started && pkt.SequenceNum != r.nextSeq {
 		//Packets are missing: what is left of a fragmented NAL cannot
 		//be completed.
-- 
2.43.0


From 70d1572548a6b265e612532cce327acd38e430b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:45 +0000
Subject: [PATCH 25/57] fix: answer RTSP requests by session state, media after
 the reply and each track on its own transport

---
 librtmp/rtsp_ingest.go |  71 +++++------
 librtmp/rtsp_server.go | 280 +++++++++++++++++++++++++++--------------
 2 files changed, 216 insertions(+), 135 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index a909df9..5f129c4 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -3,6 +3,7 @@ package librtmp
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 	"net"
 	"strings"
 	"sync/atomic"
@@ -42,7 +43,7 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 		resp.Reason = "Not Found"
 		return resp
 	}
-	if s.publishRTMP != nil {
+	if s.publishRTMP != nil || s.videoChan >= 0 || s.audioChan >= 0 {
 		resp.StatusCode = 455
 		resp.Reason = "Method Not Valid In This State"
 		return resp
@@ -132,12 +133,15 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 // embedded RTP packets, and forwards reassembled access units into
 // the room's GOP broadcast.
 func (s *rtspSession) handleRecord(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
-	if s.publishRTMP == nil || s.ingest == nil {
+	if s.publishRTMP == nil || s.ingest == nil || s.videoChan < 0 && s.audioChan < 0 {
 		resp.StatusCode = 455
 		resp.Reason = "Method Not Valid In This State"
 		return resp
 	}
 	resp.Headers.Set("Session", s.sessionID)
+	if atomic.LoadInt32(&s.recording) == 1 {
+		return resp
+	}
 
 	//Send the 200 OK first, then enter the ingest loop. Returning nil
 	//tells dispatch's caller "you take it from here" — the run() loop
@@ -161,25 +165,14 @@ func (s *rtspSession) runIngestLoop() {
 		if s.publishRTMP != nil {
 			s.publishRTMP.cleanup()
 		}
-		if s.videoUDP != nil {
-			_ = s.videoUDP.Close()
-		}
-		if s.audioUDP != nil {
-			_ = s.audioUDP.Close()
-		}
-		if s.videoUDPRTCP != nil {
-			_ = s.videoUDPRTCP.Close()
-		}
-		if s.audioUDPRTCP != nil {
-			_ = s.audioUDPRTCP.Close()
-		}
+		s.closeUDP()
 	}()
 
 	//Spawn a UDP reader per track that was set up in UDP mode.
-	if s.videoUDP != nil {
+	if s.videoUDP != nil && s.ingest.parsed.HasVideo {
 		go s.runUDPReader(s.videoUDP, false)
 	}
-	if s.audioUDP != nil {
+	if s.audioUDP != nil && s.ingest.parsed.HasAudio {
 		go s.runUDPReader(s.audioUDP, true)
 	}
 
@@ -191,32 +184,27 @@ func (s *rtspSession) runIngestLoop() {
 		if err != nil {
 			return
 		}
+		if first == '\r' || first == '\n' {
+			continue
+		}
 		if first != '$' {
 			//Push the byte back and parse as an RTSP request.
 			if err := s.br.UnreadByte(); err != nil {
 				return
 			}
-			req, err := librtsp.ReadRequest(s.br)
-			if err != nil {
-				return
-			}
-			resp := s.dispatch(req)
-			if resp == nil {
-				return
-			}
-			if err := s.writeResponse(resp); err != nil {
+			if err := s.serveRequest(); err != nil {
 				return
 			}
 			continue
 		}
 		hdr := make([]byte, 3)
-		if _, err := s.br.Read(hdr); err != nil {
+		if _, err := io.ReadFull(s.br, hdr); err != nil {
 			return
 		}
 		ch := hdr[0]
 		ln := int(binary.BigEndian.Uint16(hdr[1:3]))
 		body := make([]byte, ln)
-		if _, err := s.br.Read(body); err != nil {
+		if _, err := io.ReadFull(s.br, body); err != nil {
 			return
 		}
 		s.handleInterleaved(ch, body)
@@ -345,25 +333,22 @@ func trackPathMatches(setupURL, control string) bool {
 	if strings.Contains(control, "://") {
 		return strings.EqualFold(url, control)
 	}
+	if !strings.HasPrefix(control, "/") && !strings.HasPrefix(control, "?") {
+		control = "/" + control //a whole path segment
+	}
 	return strings.HasSuffix(strings.ToLower(url), strings.ToLower(control))
 }
 
-// notifyIngestSetup records which interleave channel a track will
-// arrive on so handleInterleaved can dispatch correctly. Returns false
-// when the URL doesn't match any advertised track.
-func (s *rtspSession) notifyIngestSetup(setupURL string, rtpCh int) (audio bool, ok bool) {
-	if s.ingest == nil {
-		return false, false
-	}
-	if s.ingest.parsed.HasVideo && trackPathMatches(setupURL, s.ingest.parsed.VideoControl) {
-		s.ingest.videoCh = rtpCh
-		return false, true
-	}
-	if s.ingest.parsed.HasAudio && trackPathMatches(setupURL, s.ingest.parsed.AudioControl) {
-		s.ingest.audioCh = rtpCh
-		return true, true
-	}
-	return false, false
+// matchIngestTrack finds the announced track a SETUP names; ok is false
+// when there is none, supported when we can read its codec.
+func (s *rtspSession) matchIngestTrack(setupURL string) (audio, supported, ok bool) {
+	if trackPathMatches(setupURL, s.ingest.parsed.VideoControl) {
+		return false, s.ingest.parsed.HasVideo, true
+	}
+	if trackPathMatches(setupURL, s.ingest.parsed.AudioControl) {
+		return true, s.ingest.parsed.HasAudio, true
+	}
+	return false, false, false
 }
 
 // silence error from importing fmt only sometimes.
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 470a209..c8a3db5 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -61,6 +61,8 @@ type rtspSession struct {
 	// ANNOUNCE; handleRecord enters the RTP receive loop.
 	ingest      *rtspIngest
 	publishRTMP *RTMP
+
+	afterReply func() //what a request starts once it is answered
 }
 
 func newRTSPSession(conn net.Conn, srv *server) *rtspSession {
@@ -83,6 +85,8 @@ func newRTSPSession(conn net.Conn, srv *server) *rtspSession {
 // or PLAY's goroutine reports a write failure.
 func (s *rtspSession) run() {
 	defer s.conn.Close()
+	defer s.closeUDP()
+	defer atomic.StoreInt32(&s.playing, 0)
 	defer func() {
 		//announced, but never recorded
 		if s.publishRTMP != nil {
@@ -90,22 +94,70 @@ func (s *rtspSession) run() {
 		}
 	}()
 	for {
-		req, err := librtsp.ReadRequest(s.br)
+		err := s.skipToRequest()
+		if err == nil {
+			err = s.serveRequest()
+		}
 		if err != nil {
 			if err != io.EOF {
 				fmt.Println("rtsp: read request:", err)
 			}
 			return
 		}
-		resp := s.dispatch(req)
-		if resp == nil {
-			return
+	}
+}
+
+// skipToRequest discards what may legally precede a request: empty lines
+// and interleaved frames (players send RTCP reports that way).
+func (s *rtspSession) skipToRequest() error {
+	for {
+		b, err := s.br.Peek(1)
+		if err != nil {
+			return err
 		}
-		s.wmu.Lock()
-		_, werr := s.conn.Write(resp.Bytes())
-		s.wmu.Unlock()
-		if werr != nil {
-			return
+		n := 1
+		switch b[0] {
+		case '\r', '\n':
+		case '$':
+			if b, err = s.br.Peek(4); err != nil {
+				return err
+			}
+			n = 4 + int(b[2])<<8 + int(b[3])
+		default:
+			return nil
+		}
+		if _, err = s.br.Discard(n); err != nil {
+			return err
+		}
+	}
+}
+
+// serveRequest reads one request and answers it. The error is io.EOF when
+// the session is over.
+func (s *rtspSession) serveRequest() error {
+	req, err := librtsp.ReadRequest(s.br)
+	if err != nil {
+		return err
+	}
+	resp := s.dispatch(req)
+	if resp == nil {
+		return io.EOF
+	}
+	if err := s.writeResponse(resp); err != nil {
+		return err
+	}
+	if s.afterReply != nil {
+		s.afterReply()
+		s.afterReply = nil
+	}
+	return nil
+}
+
+// closeUDP closes the sockets of every track.
+func (s *rtspSession) closeUDP() {
+	for _, c := range []**net.UDPConn{&s.videoUDP, &s.videoUDPRTCP, &s.audioUDP, &s.audioUDPRTCP} {
+		if *c != nil {
+			_ = (*c).Close()
 		}
 	}
 }
@@ -122,6 +174,15 @@ func (s *rtspSession) dispatch(req *librtsp.Request) *librtsp.Response {
 		resp.Headers.Set("CSeq", cseq)
 	}
 
+	if id, _, _ := strings.Cut(req.Headers.Get("session"), ";"); id != "" && id != s.sessionID {
+		resp.StatusCode = 454
+		resp.Reason = "Session Not Found"
+		return resp
+	}
+	if s.sessionID != "" {
+		resp.Headers.Set("Session", s.sessionID)
+	}
+
 	switch strings.ToUpper(req.Method) {
 	case "OPTIONS":
 		resp.Headers.Set("Public", "OPTIONS, DESCRIBE, ANNOUNCE, SETUP, PLAY, RECORD, TEARDOWN, GET_PARAMETER")
@@ -178,7 +239,11 @@ func (s *rtspSession) handleDescribe(req *librtsp.Request, resp *librtsp.Respons
 		resp.Reason = "Not Found"
 		return resp
 	}
-	s.app, s.streamID = app, room
+	if s.ingest != nil {
+		resp.StatusCode = 455
+		resp.Reason = "Method Not Valid In This State"
+		return resp
+	}
 
 	sdp := buildSDPFromRoom(rm)
 	if sdp == nil {
@@ -198,11 +263,24 @@ func (s *rtspSession) handleDescribe(req *librtsp.Request, resp *librtsp.Respons
 // is recorded on the session so subsequent PLAY / RECORD send paths
 // know which transport to use.
 func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
-	transport := req.Headers.Get("transport")
-	useUDP := strings.Contains(transport, "RTP/AVP") &&
-		!strings.Contains(transport, "RTP/AVP/TCP")
-	useTCP := strings.Contains(transport, "RTP/AVP/TCP") &&
-		strings.Contains(transport, "interleaved")
+	if atomic.LoadInt32(&s.playing) == 1 || atomic.LoadInt32(&s.recording) == 1 {
+		resp.StatusCode = 455
+		resp.Reason = "Method Not Valid In This State"
+		return resp
+	}
+	transport := ""
+	var useUDP, useTCP bool
+	//The client lists what it can do, in order of preference.
+	for _, transport = range strings.Split(req.Headers.Get("transport"), ",") {
+		profile, _, _ := strings.Cut(strings.TrimSpace(transport), ";")
+		useUDP = (profile == "RTP/AVP" || profile == "RTP/AVP/UDP") &&
+			!strings.Contains(transport, "multicast")
+		useTCP = profile == "RTP/AVP/TCP" &&
+			strings.Contains(transport, "interleaved")
+		if useUDP || useTCP {
+			break
+		}
+	}
 	if !useUDP && !useTCP {
 		resp.StatusCode = 461
 		resp.Reason = "Unsupported Transport"
@@ -214,77 +292,73 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 	var udpSocks [2]*net.UDPConn
 	var clientRTPPort, clientRTCPPort int
 
+	var ok bool
 	if useTCP {
-		var ok bool
 		rtpCh, rtcpCh, ok = parseInterleavedChannels(transport)
-		if !ok {
-			resp.StatusCode = 400
-			resp.Reason = "Bad Request"
-			return resp
-		}
+		ok = ok && rtpCh >= 0 && rtpCh <= 255 && rtcpCh >= 0 && rtcpCh <= 255
 	} else {
-		var ok bool
 		clientRTPPort, clientRTCPPort, ok = parseClientPorts(transport)
-		if !ok {
-			resp.StatusCode = 400
-			resp.Reason = "Bad Request"
-			return resp
-		}
-		var err error
-		udpSocks, srvRTPPort, srvRTCPPort, err = openUDPPair()
-		if err != nil {
-			resp.StatusCode = 500
-			resp.Reason = "Internal Server Error"
-			return resp
-		}
+		ok = ok && clientRTPPort > 0 && clientRTPPort <= 65535
+	}
+	if !ok {
+		resp.StatusCode = 400
+		resp.Reason = "Bad Request"
+		return resp
 	}
 
 	//Two SETUP shapes:
-	//  - playback: client called DESCRIBE first; we use our own
-	//    /trackID=0 (video) and /trackID=1 (audio) suffixes.
+	//  - playback: we use our own /trackID=0 (video) and /trackID=1
+	//    (audio) suffixes.
 	//  - ingest:   client did ANNOUNCE first and the SDP carried
 	//    arbitrary control= URLs; rtspIngest knows how to match.
-	isAudio := false
+	var isAudio, supported bool
 	if s.ingest != nil {
-		var ok bool
-		isAudio, ok = s.notifyIngestSetup(req.URL, rtpCh)
-		if !ok {
-			resp.StatusCode = 404
-			resp.Reason = "Not Found"
-			return resp
-		}
+		isAudio, supported, ok = s.matchIngestTrack(req.URL)
 	} else {
-		track := strings.ToLower(strings.TrimRight(req.URL, "/"))
-		switch {
-		case strings.HasSuffix(track, "/trackid=0"):
-			s.videoChan = rtpCh
-			s.videoRTP = librtsp.NewRTPPacker(96, s.videoSSRC)
-			isAudio = false
-		case strings.HasSuffix(track, "/trackid=1"):
-			s.audioChan = rtpCh
-			s.audioRTP = librtsp.NewRTPPacker(97, s.audioSSRC)
-			isAudio = true
-		default:
-			resp.StatusCode = 404
-			resp.Reason = "Not Found"
+		isAudio, ok = s.matchPlayTrack(req.URL)
+		supported = true
+	}
+	if !ok {
+		resp.StatusCode = 404
+		resp.Reason = "Not Found"
+		return resp
+	}
+
+	if useUDP {
+		var err error
+		udpSocks, srvRTPPort, srvRTCPPort, err = openUDPPair()
+		if err != nil {
+			resp.StatusCode = 500
+			resp.Reason = "Internal Server Error"
 			return resp
 		}
 	}
 
-	//Wire up UDP sockets to the per-track slot so PLAY / RECORD
-	//goroutines can find them later.
-	if useUDP {
-		clientHost := s.peerHostIP()
-		rtpPeer := &net.UDPAddr{IP: clientHost, Port: clientRTPPort}
+	//Replace whatever an earlier SETUP of the same track negotiated.
+	//PLAY / RECORD goroutines find the sockets per track.
+	ch, rtpSock, rtcpSock, peer := &s.videoChan, &s.videoUDP, &s.videoUDPRTCP, &s.peerVideoRTP
+	if isAudio {
+		ch, rtpSock, rtcpSock, peer = &s.audioChan, &s.audioUDP, &s.audioUDPRTCP, &s.peerAudioRTP
+	}
+	if *rtpSock != nil {
+		_ = (*rtpSock).Close()
+		_ = (*rtcpSock).Close()
+	}
+	*ch, *rtpSock, *rtcpSock = rtpCh, udpSocks[0], udpSocks[1]
+	*peer = &net.UDPAddr{IP: s.peerHostIP(), Port: clientRTPPort}
+	if s.ingest != nil {
+		if useUDP || !supported {
+			rtpCh = -1 //not interleaved, or nothing we could read
+		}
 		if isAudio {
-			s.audioUDP = udpSocks[0]
-			s.audioUDPRTCP = udpSocks[1]
-			s.peerAudioRTP = rtpPeer
+			s.ingest.audioCh = rtpCh
 		} else {
-			s.videoUDP = udpSocks[0]
-			s.videoUDPRTCP = udpSocks[1]
-			s.peerVideoRTP = rtpPeer
+			s.ingest.videoCh = rtpCh
 		}
+	} else if isAudio {
+		s.audioRTP = librtsp.NewRTPPacker(97, s.audioSSRC)
+	} else {
+		s.videoRTP = librtsp.NewRTPPacker(96, s.videoSSRC)
 	}
 
 	if s.sessionID == "" {
@@ -302,6 +376,26 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 	return resp
 }
 
+// matchPlayTrack finds the track a playback SETUP names, and with the
+// first one the stream to play.
+func (s *rtspSession) matchPlayTrack(setupURL string) (audio bool, ok bool) {
+	app, stream := parseRTSPURL(setupURL)
+	a, known := s.server.apps[app]
+	if !known || a.Load(stream) == nil {
+		return false, false
+	}
+	if s.streamID != "" && (app != s.app || stream != s.streamID) {
+		return false, false
+	}
+	track := strings.ToLower(strings.TrimRight(setupURL, "/"))
+	audio = strings.HasSuffix(track, "/trackid=1")
+	if !audio && !strings.HasSuffix(track, "/trackid=0") {
+		return false, false
+	}
+	s.app, s.streamID = app, stream
+	return audio, true
+}
+
 // peerHostIP returns the client's IP harvested from the RTSP TCP
 // connection. We use it as the destination for UDP packets — RTSP
 // can also carry a "destination=" param in Transport, but it's a
@@ -371,7 +465,7 @@ func openUDPPair() (socks [2]*net.UDPConn, rtpPort, rtcpPort int, err error) {
 // FLV tags from the room's broadcast and writes interleaved RTP frames
 // into the same TCP connection used by the RTSP control channel.
 func (s *rtspSession) handlePlay(req *librtsp.Request, resp *librtsp.Response) *librtsp.Response {
-	if s.app == "" || s.streamID == "" {
+	if s.ingest != nil || s.videoChan < 0 && s.audioChan < 0 {
 		resp.StatusCode = 455
 		resp.Reason = "Method Not Valid In This State"
 		return resp
@@ -391,10 +485,12 @@ func (s *rtspSession) handlePlay(req *librtsp.Request, resp *librtsp.Response) *
 	resp.Headers.Set("Session", s.sessionID)
 	resp.Headers.Set("Range", "npt=0.000-")
 
-	if !atomic.CompareAndSwapInt32(&s.playing, 0, 1) {
-		return resp
+	//The reply goes out before any media does.
+	s.afterReply = func() {
+		if atomic.CompareAndSwapInt32(&s.playing, 0, 1) {
+			go s.streamLoop(rm)
+		}
 	}
-	go s.streamLoop(rm)
 	return resp
 }
 
@@ -415,6 +511,8 @@ func (s *rtspSession) streamLoop(room *Room) {
 	for atomic.LoadInt32(&s.playing) == 1 {
 		p, alive := gopReader.Read()
 		if !alive {
+			//The stream is over, and with it the session.
+			_ = s.conn.Close()
 			return
 		}
 		tag, ok := p.(libflv.Tag)
@@ -454,7 +552,7 @@ func (s *rtspSession) sendVideoSeqHeader(tag *libflv.VideoTag) {
 	for _, nal := range [][]byte{sps, pps} {
 		for _, payload := range librtsp.PackNAL(nal, librtsp.DefaultMTU) {
 			pkt := s.videoRTP.Pack(false, 0, payload)
-			if err := s.writeInterleaved(uint8(s.videoChan), pkt); err != nil {
+			if err := s.writeRTP(false, pkt); err != nil {
 				return
 			}
 		}
@@ -489,7 +587,7 @@ func (s *rtspSession) sendVideo(tag *libflv.VideoTag) error {
 		for pi, piece := range pieces {
 			marker := ni == len(nals)-1 && pi == len(pieces)-1
 			pkt := s.videoRTP.Pack(marker, pts, piece)
-			if err := s.writeInterleaved(uint8(s.videoChan), pkt); err != nil {
+			if err := s.writeRTP(false, pkt); err != nil {
 				return err
 			}
 		}
@@ -517,7 +615,7 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 		frame := librtsp.AdtsToRaw(tag.Data())
 		payload := librtsp.PackAACFrame(frame)
 		pkt := s.audioRTP.Pack(true, ts, payload)
-		return s.writeInterleaved(uint8(s.audioChan), pkt)
+		return s.writeRTP(true, pkt)
 
 	case libflv.FLV_AUDIO_OPUS:
 		if tag.AACPacketType != libflv.AAC_RAW {
@@ -527,30 +625,28 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * librtsp.OpusClockRate / 1000)
 		payload := librtsp.PackOpusFrame(tag.Data())
 		pkt := s.audioRTP.Pack(true, ts, payload)
-		return s.writeInterleaved(uint8(s.audioChan), pkt)
+		return s.writeRTP(true, pkt)
 	}
 	return nil
 }
 
-// writeInterleaved sends one RTP packet on the appropriate transport.
-// ch is the interleave channel (used in TCP mode); routing in UDP mode
-// is by even/odd channel number — the same convention SETUP responses
-// use. We resolve the right UDP socket + peer addr from the session.
-func (s *rtspSession) writeInterleaved(ch uint8, rtp []byte) error {
-	//UDP: pick the matching per-track socket. Channel 0 / 2 / … (the
-	//RTP halves) map to whichever track we set up first.
-	if int(ch) == s.videoChan && s.videoUDP != nil {
-		_, err := s.videoUDP.WriteToUDP(rtp, s.peerVideoRTP)
-		return err
-	}
-	if int(ch) == s.audioChan && s.audioUDP != nil {
-		_, err := s.audioUDP.WriteToUDP(rtp, s.peerAudioRTP)
-		return err
+// writeRTP sends one RTP packet of a track on the transport negotiated
+// for it.
+func (s *rtspSession) writeRTP(audio bool, rtp []byte) error {
+	ch, sock, peer := s.videoChan, s.videoUDP, s.peerVideoRTP
+	if audio {
+		ch, sock, peer = s.audioChan, s.audioUDP, s.peerAudioRTP
 	}
-	frame := librtsp.InterleaveFrame(ch, rtp)
 	s.wmu.Lock()
 	defer s.wmu.Unlock()
-	_, err := s.conn.Write(frame)
+	if atomic.LoadInt32(&s.playing) == 0 {
+		return io.EOF //torn down
+	}
+	if sock != nil {
+		_, err := sock.WriteToUDP(rtp, peer)
+		return err
+	}
+	_, err := s.conn.Write(librtsp.InterleaveFrame(uint8(ch), rtp))
 	return err
 }
 
-- 
2.43.0


From 40dfcd5e1f1dbe40a9012d98087bce5716f101a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:05 +0000
Subject: [PATCH 26/57] fix: bind an RTP port pair whichever port the kernel
 offers first

---
 librtmp/rtsp_server.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index c8a3db5..9ddb5ff 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -444,18 +444,17 @@ func openUDPPair() (socks [2]*net.UDPConn, rtpPort, rtcpPort int, err error) {
 		if err != nil {
 			return
 		}
+		//Even or odd, the other half of its pair is one bit away.
 		port := c1.LocalAddr().(*net.UDPAddr).Port
-		if port%2 != 0 {
-			//Got an odd port; close, retry — the kernel might give
-			//us an even one next time.
-			_ = c1.Close()
-			continue
-		}
-		c2, err2 := net.ListenUDP("udp", &net.UDPAddr{Port: port + 1})
+		c2, err2 := net.ListenUDP("udp", &net.UDPAddr{Port: port ^ 1})
 		if err2 != nil {
 			_ = c1.Close()
 			continue
 		}
+		if port%2 != 0 {
+			c1, c2 = c2, c1
+		}
+		port &^= 1
 		return [2]*net.UDPConn{c1, c2}, port, port + 1, nil
 	}
 	return [2]*net.UDPConn{}, 0, 0, fmt.Errorf("failed to bind RTP/RTCP UDP pair")
-- 
2.43.0


From 4836bdd413948e8bc46a68bb622cbcbc48da4062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:43 +0000
Subject: [PATCH 27/57] fix: carry RTSP media with its headers, sampling rates
 and continuous times

---
 librtmp/rtsp_ingest.go | 107 ++++++++++++++++++-----------
 librtmp/rtsp_server.go | 152 ++++++++++++++++++++++++++++++-----------
 librtmp/srt_server.go  |   3 +-
 librtsp/h264.go        |  25 +++++--
 4 files changed, 201 insertions(+), 86 deletions(-)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 5f129c4..3178ecc 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -1,6 +1,7 @@
 package librtmp
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 	"io"
@@ -21,6 +22,10 @@ type rtspIngest struct {
 	videoCh int //RTSP interleave channel (RTP), -1 if not negotiated
 	audioCh int
 	videoRA *librtsp.H264Reassembler
+
+	sps, pps   [][]byte //in effect
+	videoClock rtpClock
+	audioClock rtpClock
 	//Audio re-assembly is per-packet (every packet is one+ frame), so
 	//no per-publisher state is needed — we just decode each RTP
 	//payload via librtsp.AACAUExtract.
@@ -93,18 +98,8 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 	//that join before any media tag arrives still receive the decoder
 	//config. We synthesize libflv tags (TimeStamp 0) that mirror what
 	//an RTMP publisher would have written.
-	if parsed.HasVideo && len(parsed.SPS) > 0 && len(parsed.PPS) > 0 {
-		seqHdr := buildAVCSequenceHeader(parsed.SPS, parsed.PPS)
-		vt := &libflv.VideoTag{
-			TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: 0},
-			FrameType:     libflv.KEY_FRAME,
-			CodecID:       libflv.FLV_VIDEO_AVC,
-			AVCPacketType: libflv.AVC_SEQUENCE_HEADER,
-			VideoData:     seqHdr,
-		}
-		vt.DataSize = uint32(len(vt.Data()))
-		rtmp.room.setVideoSequenceHeader(vt)
-		rtmp.room.GOP.WriteMeta(vt)
+	if parsed.HasVideo {
+		s.ingest.updateHeader(parsed.ParameterSets, 0)
 	}
 	if parsed.HasAudio && len(parsed.AudioConfig) >= 2 {
 		soundRate := uint8(3) //AAC always advertises 44.1 kHz in the FLV header
@@ -128,6 +123,55 @@ func (s *rtspSession) handleAnnounce(req *librtsp.Request, resp *librtsp.Respons
 	return resp
 }
 
+// updateHeader emits a sequence header when nals hold parameter sets not
+// in effect yet: publishers announce them in the SDP, send them in-band
+// or both.
+func (in *rtspIngest) updateHeader(nals [][]byte, timestamp uint32) {
+	var sps, pps [][]byte
+	changed := false
+	for _, n := range nals {
+		if len(n) == 0 {
+			continue
+		}
+		var known [][]byte
+		switch n[0] & 0x1F {
+		case 7:
+			sps, known = append(sps, n), in.sps
+		case 8:
+			pps, known = append(pps, n), in.pps
+		default:
+			continue
+		}
+		isNew := true
+		for _, k := range known {
+			isNew = isNew && !bytes.Equal(k, n)
+		}
+		changed = changed || isNew
+	}
+	if !changed {
+		return
+	}
+	if sps != nil {
+		in.sps = sps
+	}
+	if pps != nil {
+		in.pps = pps
+	}
+	seqHdr := avcConfig(in.sps, in.pps)
+	if seqHdr == nil {
+		return //not complete yet
+	}
+	vt := &libflv.VideoTag{
+		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: timestamp},
+		FrameType:     libflv.KEY_FRAME,
+		CodecID:       libflv.FLV_VIDEO_AVC,
+		AVCPacketType: libflv.AVC_SEQUENCE_HEADER,
+		VideoData:     seqHdr,
+	}
+	vt.DataSize = uint32(len(vt.Data()))
+	in.room.setVideoSequenceHeader(vt)
+}
+
 // handleRecord starts the RTP-receive loop. The loop reads $-prefixed
 // interleaved frames off the RTSP TCP connection until EOF, parses the
 // embedded RTP packets, and forwards reassembled access units into
@@ -214,12 +258,15 @@ func (s *rtspSession) runIngestLoop() {
 // runUDPReader pumps RTP packets off a per-track UDP socket. isAudio
 // distinguishes the two depacketisation paths.
 func (s *rtspSession) runUDPReader(c *net.UDPConn, isAudio bool) {
-	buf := make([]byte, 1500)
+	buf := make([]byte, 65536)
 	for atomic.LoadInt32(&s.recording) == 1 {
-		n, _, err := c.ReadFromUDP(buf)
+		n, from, err := c.ReadFromUDP(buf)
 		if err != nil {
 			return
 		}
+		if !from.IP.Equal(s.peerHostIP()) {
+			continue //not from the publisher
+		}
 		pkt, perr := librtsp.ParseRTP(append([]byte(nil), buf[:n]...))
 		if perr != nil {
 			continue
@@ -257,7 +304,8 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 	if librtsp.ContainsKeyframe(nals) {
 		frameType = libflv.KEY_FRAME
 	}
-	tagTS := ts / 90 //RTP video clock is 90 kHz; FLV tags are ms
+	tagTS := uint32(s.ingest.videoClock.at(ts) / 90) //RTP video clock is 90 kHz; FLV tags are ms
+	s.ingest.updateHeader(nals, tagTS)
 	vt := &libflv.VideoTag{
 		TagBase:       libflv.TagBase{TagType: libflv.VIDEO_TAG, TimeStamp: tagTS},
 		FrameType:     frameType,
@@ -278,8 +326,10 @@ func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
 	if rate <= 0 {
 		rate = 44100
 	}
-	for _, frame := range frames {
-		tagTS := uint32(uint64(pkt.Timestamp) * 1000 / uint64(rate))
+	clock := s.ingest.audioClock.at(pkt.Timestamp)
+	for i, frame := range frames {
+		//the frames of a packet follow each other
+		tagTS := uint32((clock + int64(i)*1024) * 1000 / int64(rate))
 		soundType := uint8(libflv.SND_STEREO)
 		if s.ingest.parsed.AudioChans == 1 {
 			soundType = libflv.SND_MONO
@@ -298,29 +348,6 @@ func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
 	}
 }
 
-// buildAVCSequenceHeader packs an AVCDecoderConfigurationRecord around
-// the given SPS / PPS. Mirrors what an RTMP publisher would have sent
-// in its first video tag (FLV-spec AVCPacketType=0).
-func buildAVCSequenceHeader(sps, pps []byte) []byte {
-	if len(sps) < 4 {
-		return nil
-	}
-	out := []byte{
-		0x01,        //configurationVersion
-		sps[1],      //profile
-		sps[2],      //compatibility
-		sps[3],      //level
-		0xFF,        //6 bits reserved + lengthSizeMinusOne=3
-		0xE1,        //3 bits reserved + numSPS=1
-		byte(len(sps) >> 8), byte(len(sps)),
-	}
-	out = append(out, sps...)
-	out = append(out, 0x01) //numPPS
-	out = append(out, byte(len(pps)>>8), byte(len(pps)))
-	out = append(out, pps...)
-	return out
-}
-
 // trackPathMatches reports whether the SETUP URL terminates in the
 // given track-control suffix (e.g. "trackID=0" or a relative URL).
 // Tolerates leading slashes and trailing slashes.
diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 9ddb5ff..3e84d31 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -62,6 +62,12 @@ type rtspSession struct {
 	ingest      *rtspIngest
 	publishRTMP *RTMP
 
+	//PLAY goroutine
+	paramSets  [][]byte //to send with the next picture
+	lengthSize int      //of the NAL unit lengths
+	audioRate  int
+	audioClock rtpClock
+
 	afterReply func() //what a request starts once it is answered
 }
 
@@ -499,12 +505,13 @@ func (s *rtspSession) handlePlay(req *librtsp.Request, resp *librtsp.Response) *
 func (s *rtspSession) streamLoop(room *Room) {
 	defer atomic.StoreInt32(&s.playing, 0)
 
-	//Backfill cached sequence headers as in-band data so any client
-	//that decodes off the wire rather than the SDP fmtp gets the
-	//SPS/PPS too.
-	_, videoHdr, _, gopReader := room.join()
-	if s.videoChan >= 0 && videoHdr != nil {
-		s.sendVideoSeqHeader(videoHdr)
+	//The sequence headers come first out of the reader; they go out
+	//in-band with the next picture so any client that decodes off the
+	//wire rather than the SDP fmtp gets the SPS/PPS too.
+	_, _, audioHdr, gopReader := room.join()
+	s.audioRate, s.audioClock = 0, rtpClock{}
+	if audioHdr != nil {
+		s.audioRate, _ = aacParams(audioHdr)
 	}
 
 	for atomic.LoadInt32(&s.playing) == 1 {
@@ -537,35 +544,59 @@ func (s *rtspSession) streamLoop(room *Room) {
 	}
 }
 
-// sendVideoSeqHeader emits the SPS/PPS NALs as separate single-NAL RTP
-// packets at timestamp 0 so receivers that joined mid-GOP can prime
-// their decoders.
-func (s *rtspSession) sendVideoSeqHeader(tag *libflv.VideoTag) {
-	if tag.AVCPacketType != libflv.AVC_SEQUENCE_HEADER {
-		return
-	}
-	sps, pps, _, _, err := parseAVCDCRForRTSP(tag.Data())
-	if err != nil || len(sps) == 0 {
-		return
-	}
-	for _, nal := range [][]byte{sps, pps} {
-		for _, payload := range librtsp.PackNAL(nal, librtsp.DefaultMTU) {
-			pkt := s.videoRTP.Pack(false, 0, payload)
-			if err := s.writeRTP(false, pkt); err != nil {
-				return
+// parameterSets lists the parameter sets of a sequence header and the
+// size of the length in front of each NAL unit of the pictures after it.
+func parameterSets(tag *libflv.VideoTag) (sets [][]byte, lengthSize int) {
+	src := tag.Data()
+	next := func(n int) []byte {
+		if n > len(src) {
+			n = len(src)
+		}
+		b := src[:n]
+		src = src[n:]
+		return b
+	}
+	list := func(count int) {
+		for ; count > 0 && len(src) >= 2; count-- {
+			n := next(2)
+			if set := next(int(n[0])<<8 | int(n[1])); len(set) > 0 {
+				sets = append(sets, set)
 			}
 		}
 	}
+	switch {
+	case tag.CodecID == libflv.FLV_VIDEO_AVC && len(src) >= 7:
+		h := next(6)
+		lengthSize = int(h[4]&3) + 1
+		list(int(h[5] & 0x1F))
+		if n := next(1); len(n) == 1 {
+			list(int(n[0]))
+		}
+	case tag.CodecID == libflv.FLV_VIDEO_HEVC && len(src) >= 23:
+		h := next(23)
+		lengthSize = int(h[21]&3) + 1
+		for count := int(h[22]); count > 0 && len(src) >= 3; count-- {
+			a := next(3)
+			list(int(a[1])<<8 | int(a[2]))
+		}
+	}
+	return
 }
 
 func (s *rtspSession) sendVideo(tag *libflv.VideoTag) error {
+	if tag.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
+		s.paramSets, s.lengthSize = parameterSets(tag)
+		return nil
+	}
 	if tag.AVCPacketType != libflv.AVC_NALU {
 		return nil
 	}
-	nals := librtsp.SplitAVCC(tag.Data())
+	nals := librtsp.SplitNALs(tag.Data(), s.lengthSize)
 	if len(nals) == 0 {
 		return nil
 	}
+	nals = append(s.paramSets[:len(s.paramSets):len(s.paramSets)], nals...)
+	s.paramSets = nil
 	//PTS in 90 kHz clock; FLV gives us DTS in ms plus a CTS offset.
 	pts := (uint32(tag.GetTagInfo().TimeStamp) + uint32(tag.Cts)) * 90
 
@@ -600,19 +631,17 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 		if tag.AACPacketType != libflv.AAC_RAW {
 			return nil
 		}
-		//AAC RTP timestamp uses sample-rate clock; default 44.1 kHz.
-		rate := 44100
-		switch tag.SoundRate {
-		case 0:
-			rate = 5500
-		case 1:
-			rate = 11025
-		case 2:
-			rate = 22050
-		}
-		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * uint64(rate) / 1000)
+		//AAC RTP timestamp uses sample-rate clock, as the SDP says.
+		rate := s.audioRate
+		if rate == 0 {
+			rate = decodeAACRate(tag.SoundRate)
+		}
+		ts := uint32(s.audioClock.at(tag.GetTagInfo().TimeStamp) * int64(rate) / 1000)
 		frame := librtsp.AdtsToRaw(tag.Data())
 		payload := librtsp.PackAACFrame(frame)
+		if payload == nil {
+			return nil
+		}
 		pkt := s.audioRTP.Pack(true, ts, payload)
 		return s.writeRTP(true, pkt)
 
@@ -621,8 +650,11 @@ func (s *rtspSession) sendAudio(tag *libflv.AudioTag) error {
 			return nil //skip Opus sequence header (no in-RTP equivalent)
 		}
 		//Opus RTP clock is fixed at 48 kHz per RFC 7587 §4.1.
-		ts := uint32(uint64(tag.GetTagInfo().TimeStamp) * librtsp.OpusClockRate / 1000)
+		ts := uint32(s.audioClock.at(tag.GetTagInfo().TimeStamp) * librtsp.OpusClockRate / 1000)
 		payload := librtsp.PackOpusFrame(tag.Data())
+		if payload == nil {
+			return nil
+		}
 		pkt := s.audioRTP.Pack(true, ts, payload)
 		return s.writeRTP(true, pkt)
 	}
@@ -742,28 +774,70 @@ func buildSDPFromRoom(room *Room) []byte {
 			}
 			p.HasAudio = true
 			p.AudioConfig = audioHdr.Data()
-			p.AudioRate = decodeAACRate(audioHdr.SoundRate)
+			p.AudioRate, p.AudioChans = aacParams(audioHdr)
 		case libflv.FLV_AUDIO_OPUS:
 			p.HasAudio = true
 			p.IsOpus = true
 			p.AudioRate = librtsp.OpusClockRate
 		}
-		if audioHdr.SoundType == libflv.SND_STEREO {
+		switch {
+		case p.AudioChans != 0:
+		case audioHdr.SoundType == libflv.SND_STEREO:
 			p.AudioChans = 2
-		} else {
+		default:
 			p.AudioChans = 1
 		}
 	}
 	return librtsp.BuildSDP(p)
 }
 
+// aacParams reads sampling rate and channels from the AAC configuration;
+// the FLV header says 44.1 kHz stereo for every AAC stream.
+func aacParams(hdr *libflv.AudioTag) (rate, chans int) {
+	rates := [...]int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}
+	rate = decodeAACRate(hdr.SoundRate)
+	asc := hdr.Data()
+	if len(asc) < 2 {
+		return
+	}
+	index := int(asc[0]&7)<<1 | int(asc[1]>>7)
+	if asc[0]>>3 == 31 || index >= len(rates) {
+		return //spelled out further on
+	}
+	rate = rates[index]
+	switch c := int(asc[1] >> 3 & 15); {
+	case c == 7:
+		chans = 8
+	case c < 7:
+		chans = c
+	}
+	return
+}
+
+// rtpClock continues a 32-bit time across its wrap.
+type rtpClock struct {
+	now     int64
+	started bool
+}
+
+func (c *rtpClock) at(t uint32) int64 {
+	if !c.started {
+		c.now, c.started = int64(t), true
+	}
+	if next := c.now + int64(int32(t-uint32(c.now))); next >= 0 {
+		c.now = next
+		return next
+	}
+	return 0 //before the start
+}
+
 // decodeAACRate maps the FLV 2-bit sound-rate code back to Hz. Only
 // 44.1 kHz is correct for AAC per the FLV spec, but other publishers
 // emit 22050/11025/5500 occasionally.
 func decodeAACRate(code uint8) int {
 	switch code {
 	case 0:
-		return 5500
+		return 5512
 	case 1:
 		return 11025
 	case 2:
diff --git a/librtmp/srt_server.go b/librtmp/srt_server.go
index 7d6be22..5e7d71b 100644
--- a/librtmp/srt_server.go
+++ b/librtmp/srt_server.go
@@ -337,7 +337,8 @@ func splitAnnexB(buf []byte) [][]byte {
 	return out
 }
 
-// avcConfig is buildAVCSequenceHeader for any number of parameter sets.
+// avcConfig packs an AVCDecoderConfigurationRecord around the parameter
+// sets, nil if they are incomplete.
 func avcConfig(sps, pps [][]byte) []byte {
 	if len(sps) == 0 || len(sps) > 31 || len(pps) == 0 || len(pps) > 255 || len(sps[0]) < 4 {
 		return nil
diff --git a/librtsp/h264.go b/librtsp/h264.go
index aaf24d9..f35b66c 100644
--- a/librtsp/h264.go
+++ b/librtsp/h264.go
@@ -74,15 +74,28 @@ func PackNAL(nal []byte, mtu int) [][]byte {
 // AVCC; we re-fragment per NAL because the "access unit = one or more
 // NALs" model is what RTP wants.
 func SplitAVCC(buf []byte) [][]byte {
+	return SplitNALs(buf, 4)
+}
+
+// SplitNALs is SplitAVCC for NAL units with a length prefix of size bytes.
+func SplitNALs(buf []byte, size int) [][]byte {
+	if size < 1 || size > 4 {
+		size = 4
+	}
 	var out [][]byte
-	for off := 0; off+4 <= len(buf); {
-		size := int(buf[off])<<24 | int(buf[off+1])<<16 | int(buf[off+2])<<8 | int(buf[off+3])
-		off += 4
-		if size <= 0 || off+size > len(buf) {
+	for len(buf) >= size {
+		n := 0
+		for _, b := range buf[:size] {
+			n = n<<8 | int(b)
+		}
+		buf = buf[size:]
+		if n > len(buf) {
 			return out
 		}
-		out = append(out, buf[off:off+size])
-		off += size
+		if n > 0 {
+			out = append(out, buf[:n])
+		}
+		buf = buf[n:]
 	}
 	return out
 }
-- 
2.43.0


From 251f6cace8d41d44b8de901f8829da8421b1af7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:44 +0000
Subject: [PATCH 28/57] fix: take repeated and late RTP audio packets once

---
 librtmp/rtsp_ingest.go |  4 ++++
 librtsp/rtp_unpack.go  | 17 +++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/librtmp/rtsp_ingest.go b/librtmp/rtsp_ingest.go
index 3178ecc..626a0a1 100644
--- a/librtmp/rtsp_ingest.go
+++ b/librtmp/rtsp_ingest.go
@@ -26,6 +26,7 @@ type rtspIngest struct {
 	sps, pps   [][]byte //in effect
 	videoClock rtpClock
 	audioClock rtpClock
+	audioSeq   librtsp.SequenceFilter
 	//Audio re-assembly is per-packet (every packet is one+ frame), so
 	//no per-publisher state is needed — we just decode each RTP
 	//payload via librtsp.AACAUExtract.
@@ -321,6 +322,9 @@ func (s *rtspSession) handleVideoRTP(pkt *librtsp.RTPPacket) {
 }
 
 func (s *rtspSession) handleAudioRTP(pkt *librtsp.RTPPacket) {
+	if !s.ingest.audioSeq.Accept(pkt.SequenceNum) {
+		return
+	}
 	frames := librtsp.AACAUExtract(pkt.Payload)
 	rate := s.ingest.parsed.AudioRate
 	if rate <= 0 {
diff --git a/librtsp/rtp_unpack.go b/librtsp/rtp_unpack.go
index 72403f5..be7bf03 100644
--- a/librtsp/rtp_unpack.go
+++ b/librtsp/rtp_unpack.go
@@ -70,6 +70,23 @@ func ParseRTP(buf []byte) (*RTPPacket, error) {
 // same run of sequence numbers (RFC 3550 §A.1).
 const maxMisorder = 100
 
+// SequenceFilter tells packets that are new from those that were seen
+// already, or come too late to be of use. The zero value accepts any first
+// packet.
+type SequenceFilter struct {
+	started bool
+	next    uint16
+}
+
+// Accept reports whether the packet numbered n is new.
+func (f *SequenceFilter) Accept(n uint16) bool {
+	if d := int16(n - f.next); f.started && d < 0 && d >= -maxMisorder {
+		return false
+	}
+	f.started, f.next = true, n+1
+	return true
+}
+
 // H264Reassembler accumulates H.264 NAL units across multiple RTP
 // packets. Single-NAL packets emit immediately; FU-A fragmented NALs
 // are buffered until the End-of-fragment bit fires; STAP-A aggregation
-- 
2.43.0


From 260acbee312cfda6a646b1373dbf557b0c8b1cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 29/57] fix: escape segment names in HLS playlists

---
 libhls/m3u8.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libhls/m3u8.go b/libhls/m3u8.go
index 5116789..78f6273 100644
--- a/libhls/m3u8.go
+++ b/libhls/m3u8.go
@@ -3,6 +3,7 @@ package libhls
 import (
 	"fmt"
 	"math"
+	"net/url"
 	"strings"
 	"time"
 )
@@ -15,6 +16,11 @@ type segmentInfo struct {
 	parts    []partInfo //LL-HLS: empty when not in low-latency mode
 }
 
+// segmentURI is the reference to a segment file relative to the playlist.
+func segmentURI(filename string) string {
+	return strings.ReplaceAll(url.PathEscape(filename), ":", "%3A")
+}
+
 // buildPlaylist emits a live HLS (version 3) media playlist over the
 // given rolling segment window. The newest segment is the last entry;
 // readers pick up EXT-X-MEDIA-SEQUENCE from the oldest entry's seq.
@@ -39,7 +45,7 @@ func buildPlaylist(segments []segmentInfo) []byte {
 	fmt.Fprintf(&sb, "#EXT-X-MEDIA-SEQUENCE:%d\n", segments[0].seq)
 	sb.WriteString("#EXT-X-ALLOW-CACHE:NO\n")
 	for _, s := range segments {
-		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, s.filename)
+		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, segmentURI(s.filename))
 	}
 	return []byte(sb.String())
 }
@@ -110,7 +116,7 @@ func buildLLPlaylist(in playlistInputs) []byte {
 		for _, p := range s.parts {
 			writePartTag(&sb, p, s.filename)
 		}
-		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, s.filename)
+		fmt.Fprintf(&sb, "#EXTINF:%.3f,\n%s\n", s.duration, segmentURI(s.filename))
 	}
 
 	//Emit in-progress segment's parts (no EXTINF yet — segment isn't
@@ -125,7 +131,7 @@ func buildLLPlaylist(in playlistInputs) []byte {
 			}
 		}
 		fmt.Fprintf(&sb, "#EXT-X-PRELOAD-HINT:TYPE=PART,URI=\"%s\",BYTERANGE-START=%d\n",
-			in.currentName, preloadOffset)
+			segmentURI(in.currentName), preloadOffset)
 	}
 
 	return []byte(sb.String())
@@ -133,7 +139,7 @@ func buildLLPlaylist(in playlistInputs) []byte {
 
 func writePartTag(sb *strings.Builder, p partInfo, uri string) {
 	fmt.Fprintf(sb, "#EXT-X-PART:DURATION=%.3f,URI=\"%s\",BYTERANGE=\"%d@%d\"",
-		p.duration, uri, p.byteLength, p.byteOffset)
+		p.duration, segmentURI(uri), p.byteLength, p.byteOffset)
 	if p.independent {
 		sb.WriteString(",INDEPENDENT=YES")
 	}
-- 
2.43.0


From ed66cde8786fb805c0d2997ca842a4d21332149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:23 +0000
Subject: [PATCH 30/57] fix: keep HLS frames, times, parts and files consistent
 across clock wraps, stream ends and stops

---
 libavc/avc.go   |  12 ++-
 libhls/align.go |   9 +-
 libhls/hls.go   | 236 +++++++++++++++++++++++++++++++-----------------
 3 files changed, 172 insertions(+), 85 deletions(-)

diff --git a/libavc/avc.go b/libavc/avc.go
index 536f9bf..f724135 100644
--- a/libavc/avc.go
+++ b/libavc/avc.go
@@ -150,6 +150,16 @@ func (parser *Parser) naluSize(src []byte) (int, error) {
 }
 
 func (parser *Parser) GetAnnexbH264(src []byte, w io.Writer) error {
+	return parser.annexb(src, w, false)
+}
+
+// GetAnnexbKeyframe is GetAnnexbH264 for an access unit that decoding may
+// start at, whatever its NAL units: the parameter sets always precede it.
+func (parser *Parser) GetAnnexbKeyframe(src []byte, w io.Writer) error {
+	return parser.annexb(src, w, true)
+}
+
+func (parser *Parser) annexb(src []byte, w io.Writer, key bool) error {
 	lengthSize := parser.lengthSize()
 	dataSize := len(src)
 	if dataSize < lengthSize {
@@ -179,7 +189,7 @@ func (parser *Parser) GetAnnexbH264(src []byte, w io.Writer) error {
 		}
 		rest = rest[nalLen:]
 	}
-	if hasIdr && !(hasSps && hasPps) {
+	if (key || hasIdr) && !(hasSps && hasPps) {
 		if _, err := w.Write(parser.SpecificInfo); err != nil {
 			return err
 		}
diff --git a/libhls/align.go b/libhls/align.go
index 898459a..ac5a7ca 100755
--- a/libhls/align.go
+++ b/libhls/align.go
@@ -9,7 +9,9 @@ type align struct {
 	frameBase uint64
 }
 
-func (a *align) align(dts *uint64, inc uint32) {
+// align smooths dts onto the frame cadence; it reports whether the frame
+// follows the previous one in that cadence.
+func (a *align) align(dts *uint64, inc uint32) bool {
 	aFrameDts := *dts
 	estPts := a.frameBase + a.frameNum*uint64(inc)
 	var dPts uint64
@@ -21,9 +23,10 @@ func (a *align) align(dts *uint64, inc uint32) {
 
 	if dPts <= uint64(syncms)*90 {
 		a.frameNum++
-		*dts = estPts
-		return
+		*dts = estPts & ptsMask
+		return true
 	}
 	a.frameNum = 1
 	a.frameBase = aFrameDts
+	return false
 }
diff --git a/libhls/hls.go b/libhls/hls.go
index 5d06280..7d2c70e 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -2,10 +2,12 @@ package libhls
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -20,6 +22,19 @@ import (
 
 type HLS_MODE uint8
 
+// ptsMask keeps the 33 bits of an MPEG-TS timestamp. FLV's 32 bits of
+// milliseconds wrap where the 33 bits of 90 kHz ticks do.
+const ptsMask = 1<<33 - 1
+
+// errStopped ends a segmenter that was stopped.
+var errStopped = errors.New("segmenter stopped")
+
+// tsTicks converts an FLV timestamp to the 90 kHz clock.
+func tsTicks(ms uint32) uint64 { return uint64(ms) * 90 & ptsMask }
+
+// ticksBetween is the signed distance from a to b on the 33-bit clock.
+func ticksBetween(a, b uint64) int64 { return int64((b-a)<<31) >> 31 }
+
 //rtmp->hls 转码有两种方式，懒汉式和饿汉式
 // 饿汉式：流推上来后立即开始转为 hls，不管有没有人拉 hls 流。推流断掉后才停止转码
 // 懒汉式：第一个人拉 hls 时才开始转码，没人拉时就停掉，即使推流还没停
@@ -43,6 +58,10 @@ const psiInterval = 100 * time.Millisecond
 // choice that balances overhead against player buffer freshness.
 const defaultPartTargetDur = 333 * time.Millisecond
 
+// minPartDur is the shortest part duration, in seconds, that a playlist
+// can express.
+const minPartDur = 0.001
+
 // HLS is the per-stream transcoder. A single publisher owns one HLS
 // instance; all mutable state (CC counters, PES parsers, segment list)
 // is therefore not concurrent-write, but readers (playlist fetchers)
@@ -92,6 +111,7 @@ type HLS struct {
 	nextSeq        int
 	currentParts   []partInfo //LL-HLS: parts of the in-progress segment
 	currentSegName string     //basename of in-progress segment, "" if none
+	ended          bool       //Start has returned: nothing will be added
 
 	// coordination
 	ready     chan struct{}
@@ -188,44 +208,32 @@ func (hls *HLS) Playlist() []byte {
 
 // WaitForPlaylist returns the LL-HLS playlist for which the given
 // _HLS_msn / _HLS_part has become available. If wantMSN is negative
-// the call returns immediately with whatever is current. Times out
-// after timeout (returns the current playlist anyway, matching the
+// the call returns immediately with whatever is current, as it does once
+// the stream has ended; a negative wantPart asks for the whole segment.
+// Times out after timeout (returns the current playlist anyway, matching the
 // "respond with stale playlist" guidance from Apple's spec).
 func (hls *HLS) WaitForPlaylist(wantMSN int, wantPart int, timeout time.Duration) []byte {
 	deadline := time.Now().Add(timeout)
+	//Broadcasts come from the writer goroutine after each part and
+	//segment is recorded, and from the timer at the deadline.
+	timer := time.AfterFunc(timeout, func() {
+		hls.mu.Lock()
+		hls.cond.Broadcast()
+		hls.mu.Unlock()
+	})
+	defer timer.Stop()
 	hls.mu.Lock()
-	for {
-		if !hls.llEnabled || wantMSN < 0 {
+	for hls.llEnabled && wantMSN >= 0 && !hls.ended && !hls.stopRequested() {
+		if wantMSN < hls.nextSeq { //a finished segment
 			break
 		}
-		latestMSN := hls.nextSeq - 1
-		latestPart := -1
-		if hls.currentSegName != "" {
-			latestMSN = hls.nextSeq
-			latestPart = len(hls.currentParts) - 1
-		}
-		if wantMSN < latestMSN || (wantMSN == latestMSN && wantPart <= latestPart) {
+		if wantMSN == hls.nextSeq && wantPart >= 0 && wantPart < len(hls.currentParts) {
 			break
 		}
-		now := time.Now()
-		if !now.Before(deadline) {
+		if !time.Now().Before(deadline) {
 			break
 		}
-		//Cond.Wait releases mu while parked; broadcasts come from the
-		//writer goroutine after each part is recorded.
-		waitCh := make(chan struct{})
-		go func(d time.Duration) {
-			time.Sleep(d)
-			hls.mu.Lock()
-			hls.cond.Broadcast()
-			hls.mu.Unlock()
-			close(waitCh)
-		}(deadline.Sub(now))
 		hls.cond.Wait()
-		select {
-		case <-waitCh:
-		default:
-		}
 	}
 	if len(hls.segments) == 0 && !hls.llEnabled {
 		hls.mu.Unlock()
@@ -260,22 +268,23 @@ func (hls *HLS) WaitFirstSegment() {
 // Stop requests graceful shutdown of the transcoder and removes any
 // lingering segment files on disk. Idempotent.
 func (hls *HLS) Stop() {
+	//Everything Start does to files is under mu too, and only until
+	//stopped is set: nothing comes into being after this.
+	hls.mu.Lock()
+	defer hls.mu.Unlock()
 	if !atomic.CompareAndSwapInt32(&hls.stopped, 0, 1) {
 		return
 	}
-	if hls.currentFile != nil {
-		_ = hls.currentFile.Close()
-		hls.currentFile = nil
+	for _, s := range hls.segments {
+		_ = os.Remove(filepath.Join(hls.dir, s.filename))
+	}
+	if hls.currentSegName != "" {
+		_ = os.Remove(filepath.Join(hls.dir, hls.currentSegName))
 	}
-	hls.mu.Lock()
-	hls.currentSegName = ""
-	segs := append([]segmentInfo(nil), hls.segments...)
 	hls.segments = nil
+	hls.currentParts = nil
+	hls.currentSegName = ""
 	hls.cond.Broadcast()
-	hls.mu.Unlock()
-	for _, s := range segs {
-		_ = os.Remove(filepath.Join(hls.dir, s.filename))
-	}
 	//Unblock anyone waiting on WaitFirstSegment if we never produced
 	//one.
 	hls.readyOnce.Do(func() { close(hls.ready) })
@@ -293,6 +302,16 @@ type TagReader interface {
 
 //start to generate ts segments.
 func (hls *HLS) Start(gopReader TagReader) (err error) {
+	defer func() {
+		hls.mu.Lock()
+		hls.ended = true
+		hls.cond.Broadcast()
+		hls.mu.Unlock()
+		hls.readyOnce.Do(func() { close(hls.ready) })
+	}()
+	if strings.ContainsAny(hls.streamID, "/\x00") {
+		return fmt.Errorf("stream id %q does not fit into a file name", hls.streamID)
+	}
 	if err := os.MkdirAll(hls.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", hls.dir, err)
 	}
@@ -306,8 +325,8 @@ func (hls *HLS) Start(gopReader TagReader) (err error) {
 	defer func() {
 		//On graceful exit (publisher gone or Stop called) finalise the
 		//current segment so players don't lose the last few seconds.
-		hls.finaliseCurrent()
-		hls.readyOnce.Do(func() { close(hls.ready) })
+		hls.flushAudio()
+		hls.finaliseCurrent(hls.currentEndDTS)
 	}()
 
 outer:
@@ -336,13 +355,17 @@ outer:
 		//that's what we already multiply the FLV timestamps by.
 		if videoFrameKey {
 			if hls.currentFile == nil {
-				if err := hls.openSegment(pes.DTS); err != nil {
+				if err := hls.openSegment(pes.DTS); err == errStopped {
+					return nil
+				} else if err != nil {
 					return err
 				}
 			} else {
-				curDur := float64(pes.DTS-hls.currentStartDTS) / 90000.0
-				if curDur*float64(time.Second) >= float64(hls.targetDur) {
-					if err := hls.rotate(pes.DTS); err != nil {
+				curDur := float64(ticksBetween(hls.currentStartDTS, pes.DTS)) / 90000.0
+				if curDur < 0 || curDur*float64(time.Second) >= float64(hls.targetDur) {
+					if err := hls.rotate(pes.DTS); err == errStopped {
+						return nil
+					} else if err != nil {
 						return err
 					}
 				}
@@ -362,20 +385,9 @@ outer:
 			}
 		}
 
-		firstTS := true
-		for {
-			finish, muxErr := libmpeg.NewTs(pid, hls.Cc, firstTS).Mux(pes, videoFrameKey && firstTS, pes.DTS, hls.currentWriter)
-			if muxErr != nil {
-				fmt.Printf("ts.Mux pes error:%+v\n", muxErr)
-				continue outer
-			}
-			firstTS = false
-			if finish {
-				break
-			}
-		}
-		if pes.DTS > hls.currentEndDTS {
-			hls.currentEndDTS = pes.DTS
+		if muxErr := hls.mux(pes, pid, videoFrameKey); muxErr != nil {
+			fmt.Printf("ts.Mux pes error:%+v\n", muxErr)
+			continue outer
 		}
 
 		//LL-HLS partial-segment boundary check. Close the current part
@@ -386,7 +398,7 @@ outer:
 		//to the part we're closing — the next part starts at the
 		//current write offset.
 		if hls.llEnabled && hls.currentFile != nil {
-			partDur := float64(pes.DTS-hls.partStartDTS) / 90000.0
+			partDur := float64(ticksBetween(hls.partStartDTS, pes.DTS)) / 90000.0
 			if partDur*float64(time.Second) >= float64(hls.partTargetDur) {
 				hls.closeCurrentPart(pes.DTS, false)
 			}
@@ -394,6 +406,40 @@ outer:
 	}
 }
 
+// mux writes one PES to the current segment.
+func (hls *HLS) mux(pes *libmpeg.PES, pid uint16, key bool) error {
+	firstTS := true
+	for {
+		finish, err := libmpeg.NewTs(pid, hls.Cc, firstTS).Mux(pes, key && firstTS, pes.DTS, hls.currentWriter)
+		if err != nil {
+			return err
+		}
+		firstTS = false
+		if finish {
+			break
+		}
+	}
+	if ticksBetween(hls.currentEndDTS, pes.DTS) > 0 {
+		hls.currentEndDTS = pes.DTS
+	}
+	return nil
+}
+
+// flushAudio writes the audio frames that are still waiting for a full
+// cache.
+func (hls *HLS) flushAudio() {
+	if hls.currentFile == nil || hls.audioCache.CacheNum() == 0 {
+		return
+	}
+	pes := hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.AUDIO_PID]
+	_, pes.PTS, pes.Data = hls.audioCache.GetFrame()
+	pes.DTS = pes.PTS
+	pes.Index, pes.HeaderIndex = 0, 0
+	if err := hls.mux(pes, libmpeg.AUDIO_PID, false); err != nil {
+		fmt.Printf("ts.Mux pes error:%+v\n", err)
+	}
+}
+
 // toPES lifts an FLV tag into a libmpeg.PES plus routing metadata. It
 // returns skip=true when the tag should be dropped (unsupported codec,
 // sequence header, or audio still buffering in the ADTS cache).
@@ -411,7 +457,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			pid = libmpeg.AUDIO_PID
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.AUDIO_PID]
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = tsTicks(tag.GetTagInfo().TimeStamp)
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
 			pes.Index = 0
@@ -424,9 +470,18 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			if hls.Ah.SampleRate <= uint8(len(libaac.AACRates)-1) {
 				rate = libaac.AACRates[hls.Ah.SampleRate]
 			}
-			hls.align.align(&pes.DTS, uint32(90000*1024/rate))
+			inCadence := hls.align.align(&pes.DTS, uint32(90000*1024/rate))
 			pes.PTS = pes.DTS
 
+			if !inCadence && hls.audioCache.CacheNum() > 0 {
+				//The cached frames' time says nothing about this one:
+				//they go out, this one starts anew.
+				_, cachedPTS, data := hls.audioCache.GetFrame()
+				cached := append([]byte(nil), data...)
+				hls.audioCache.Cache(pes.Data, pes.PTS)
+				pes.PTS, pes.DTS, pes.Data = cachedPTS, cachedPTS, cached
+				return pes, pid, false, false
+			}
 			hls.audioCache.Cache(pes.Data, pes.PTS)
 			if hls.audioCache.CacheNum() < cache_max_frames {
 				return nil, 0, false, true
@@ -453,7 +508,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes = hls.Pat.PMTs[libmpeg.PMT_PID].Streams[libmpeg.VIDEO_PID]
 			pes.StreamType = 0x1B
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = tsTicks(tag.GetTagInfo().TimeStamp)
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
@@ -464,7 +519,11 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 				pes.Data = pv.Data()
 			} else {
 				buf := bytes.NewBuffer([]byte{})
-				if err := hls.AvcParser.GetAnnexbH264(pv.Data(), easyio.NewEasyWriter(buf)); err != nil {
+				toAnnexb := hls.AvcParser.GetAnnexbH264
+				if videoKey {
+					toAnnexb = hls.AvcParser.GetAnnexbKeyframe
+				}
+				if err := toAnnexb(pv.Data(), easyio.NewEasyWriter(buf)); err != nil {
 					fmt.Printf("AvcParser.GetAnnexbH264 error:%+v\n", err)
 					return nil, 0, false, true
 				}
@@ -477,7 +536,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			}
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(int64(int32(pv.Cts))*90)
+				pes.PTS = (pes.DTS + uint64(int64(int32(pv.Cts))*90)) & ptsMask
 			}
 			return pes, pid, videoKey, false
 
@@ -497,7 +556,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			videoKey = pv.FrameType == libflv.KEY_FRAME
 			pid = libmpeg.VIDEO_PID
 
-			pes.DTS = uint64(tag.GetTagInfo().TimeStamp * 90)
+			pes.DTS = tsTicks(tag.GetTagInfo().TimeStamp)
 			pes.PTS = pes.DTS
 			pes.PTS_DTSFlag = 0x02
 			pes.PESHeaderDataLength = 0x05
@@ -506,7 +565,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.Data = avccToAnnexB(pv.Data())
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
-				pes.PTS = pes.DTS + uint64(int64(int32(pv.Cts))*90)
+				pes.PTS = (pes.DTS + uint64(int64(int32(pv.Cts))*90)) & ptsMask
 			}
 			return pes, pid, videoKey, false
 
@@ -582,13 +641,21 @@ func avccToAnnexB(buf []byte) []byte {
 // openSegment creates a fresh .ts file and writes an initial PAT/PMT.
 func (hls *HLS) openSegment(startDTS uint64) error {
 	hls.mu.Lock()
+	if hls.stopRequested() {
+		hls.mu.Unlock()
+		return errStopped
+	}
 	name := fmt.Sprintf("%s-%d.ts", hls.streamID, hls.nextSeq)
-	hls.mu.Unlock()
 	fullPath := filepath.Join(hls.dir, name)
 	f, err := os.Create(fullPath)
 	if err != nil {
+		hls.mu.Unlock()
 		return fmt.Errorf("create segment: %w", err)
 	}
+	hls.currentSegName = name
+	hls.currentParts = hls.currentParts[:0]
+	hls.mu.Unlock()
+
 	hls.currentFile = f
 	hls.currentBytes = 0
 	hls.currentWriter = newCountingWriter(f, &hls.currentBytes)
@@ -597,11 +664,6 @@ func (hls *HLS) openSegment(startDTS uint64) error {
 	hls.partStartDTS = startDTS
 	hls.partStartOffset = 0
 
-	hls.mu.Lock()
-	hls.currentSegName = name
-	hls.currentParts = hls.currentParts[:0]
-	hls.mu.Unlock()
-
 	//Fresh CC per segment so each segment stands alone — a mid-stream
 	//joiner decoding just this segment won't see CC discontinuities.
 	hls.Cc = map[uint16]uint8{}
@@ -617,16 +679,20 @@ func (hls *HLS) closeCurrentPart(endDTS uint64, nextIndependent bool) {
 	if hls.currentFile == nil {
 		return
 	}
-	dur := float64(endDTS-hls.partStartDTS) / 90000.0
-	if dur <= 0 {
-		return
+	dur := float64(ticksBetween(hls.partStartDTS, endDTS)) / 90000.0
+	if dur < minPartDur { //bytes without a time of their own still are a part
+		dur = minPartDur
 	}
 	length := hls.currentBytes - hls.partStartOffset
 	if length <= 0 {
 		return
 	}
-	independent := len(hls.currentParts) == 0 //first part — starts at IDR+PSI
 	hls.mu.Lock()
+	if hls.stopRequested() {
+		hls.mu.Unlock()
+		return
+	}
+	independent := len(hls.currentParts) == 0 //first part — starts at IDR+PSI
 	hls.currentParts = append(hls.currentParts, partInfo{
 		duration:    dur,
 		independent: independent,
@@ -677,13 +743,17 @@ func (hls *HLS) writePSI() error {
 // rotate closes the current segment, reaps old ones beyond the window,
 // and opens a new one starting at the given DTS.
 func (hls *HLS) rotate(nextStartDTS uint64) error {
-	hls.finaliseCurrent()
+	end := hls.currentEndDTS
+	if ticksBetween(end, nextStartDTS) > 0 {
+		end = nextStartDTS //the last frame lasts until the next one
+	}
+	hls.finaliseCurrent(end)
 	return hls.openSegment(nextStartDTS)
 }
 
-// finaliseCurrent closes and records the in-progress segment. Safe to
-// call when no segment is open.
-func (hls *HLS) finaliseCurrent() {
+// finaliseCurrent closes the in-progress segment, which ends at endDTS,
+// and records it. Safe to call when no segment is open.
+func (hls *HLS) finaliseCurrent(endDTS uint64) {
 	if hls.currentFile == nil {
 		return
 	}
@@ -691,7 +761,7 @@ func (hls *HLS) finaliseCurrent() {
 	//part, so LL-HLS clients have a complete partial-segment record
 	//for this MSN.
 	if hls.llEnabled && hls.currentBytes > hls.partStartOffset {
-		hls.closeCurrentPart(hls.currentEndDTS, false)
+		hls.closeCurrentPart(endDTS, false)
 	}
 
 	name := filepath.Base(hls.currentFile.Name())
@@ -699,7 +769,7 @@ func (hls *HLS) finaliseCurrent() {
 	hls.currentFile = nil
 	hls.currentWriter = nil
 
-	duration := float64(hls.currentEndDTS-hls.currentStartDTS) / 90000.0
+	duration := float64(ticksBetween(hls.currentStartDTS, endDTS)) / 90000.0
 	if duration <= 0 {
 		//Never observed a second tick; assume a minimum so the
 		//playlist target duration calculation doesn't underflow.
@@ -707,6 +777,10 @@ func (hls *HLS) finaliseCurrent() {
 	}
 
 	hls.mu.Lock()
+	if hls.stopRequested() { //Stop has removed the file
+		hls.mu.Unlock()
+		return
+	}
 	seg := segmentInfo{
 		filename: name,
 		seq:      hls.nextSeq,
-- 
2.43.0


From 096a03e286a2e7ebd786704d5e5455d62d516533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:45 +0000
Subject: [PATCH 31/57] fix: keep every DASH sample with its own duration and
 list each segment's, leave nothing after a stop

---
 libdash/dash.go | 111 ++++++++++++++++++++++++++++--------------------
 libdash/mpd.go  |  27 ++++++------
 2 files changed, 76 insertions(+), 62 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index fbce396..8d44bc0 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -17,6 +17,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -64,6 +65,9 @@ type DASH struct {
 	segments    []segmentInfo
 	nextSeq     int
 	currentSamples []sampleWithTime
+	lastTime       uint32 //FLV timestamp of the newest sample
+	decodeTime     uint64 //its continuation beyond 32 bits
+	sampleDur      uint64 //the newest known sample duration
 	availabilityStart time.Time
 
 	ready     chan struct{}
@@ -87,6 +91,7 @@ func NewDASH() *DASH {
 		targetDur:         2 * time.Second,
 		windowSize:        6,
 		timescale:         defaultTimescale,
+		sampleDur:         33, //~30fps fallback
 		availabilityStart: time.Now().UTC(),
 	}
 	d.cond = sync.NewCond(&d.mu)
@@ -139,20 +144,21 @@ func (d *DASH) Manifest() []byte {
 func (d *DASH) WaitFirstSegment() { <-d.ready }
 
 func (d *DASH) Stop() {
+	//Files are written under mu too, and only until stopped is set:
+	//nothing comes into being after this.
+	d.mu.Lock()
+	defer d.mu.Unlock()
 	if !atomic.CompareAndSwapInt32(&d.stopped, 0, 1) {
 		return
 	}
-	d.mu.Lock()
-	segs := append([]segmentInfo(nil), d.segments...)
-	d.segments = nil
-	d.cond.Broadcast()
-	d.mu.Unlock()
-	for _, s := range segs {
+	for _, s := range d.segments {
 		_ = os.Remove(filepath.Join(d.dir, s.filename))
 	}
 	if d.streamID != "" {
 		_ = os.Remove(filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID)))
 	}
+	d.segments = nil
+	d.cond.Broadcast()
 	d.readyOnce.Do(func() { close(d.ready) })
 }
 
@@ -170,12 +176,19 @@ type TagReader interface {
 // fragments and writes them to disk. Returns when the publisher
 // disconnects or Stop is called.
 func (d *DASH) Start(gopReader TagReader) error {
+	defer func() {
+		d.readyOnce.Do(func() { close(d.ready) })
+	}()
+	if strings.ContainsAny(d.streamID, "/\x00") {
+		return fmt.Errorf("stream id %q does not fit into a file name", d.streamID)
+	}
 	if err := os.MkdirAll(d.dir, 0o755); err != nil {
 		return fmt.Errorf("mkdir %s: %w", d.dir, err)
 	}
 	defer func() {
-		d.flushCurrent()
-		d.readyOnce.Do(func() { close(d.ready) })
+		if len(d.currentSamples) > 0 { //the last sample's duration is a best guess
+			d.flushCurrent(d.currentSamples[len(d.currentSamples)-1].dts + d.sampleDur)
+		}
 	}()
 
 	for {
@@ -216,7 +229,7 @@ func (d *DASH) Start(gopReader TagReader) error {
 			continue
 		}
 
-		dts := uint64(v.GetTagInfo().TimeStamp) //ms
+		dts := d.continueTime(v.GetTagInfo().TimeStamp) //ms
 		cts := int32(v.Cts)                     //ms
 		isKey := v.FrameType == libflv.KEY_FRAME
 
@@ -227,7 +240,7 @@ func (d *DASH) Start(gopReader TagReader) error {
 			if len(d.currentSamples) > 0 {
 				curDur := dts - d.currentSamples[0].dts
 				if curDur*1000 >= uint64(d.targetDur/time.Millisecond)*1000 {
-					if err := d.flushCurrent(); err != nil {
+					if err := d.flushCurrent(dts); err != nil {
 						fmt.Printf("dash: flush segment: %v\n", err)
 					}
 				}
@@ -242,6 +255,9 @@ func (d *DASH) Start(gopReader TagReader) error {
 			continue
 		}
 
+		if n := len(d.currentSamples); n > 0 && dts > d.currentSamples[n-1].dts {
+			d.sampleDur = dts - d.currentSamples[n-1].dts
+		}
 		d.currentSamples = append(d.currentSamples, sampleWithTime{
 			dts:  dts,
 			cts:  cts,
@@ -251,6 +267,19 @@ func (d *DASH) Start(gopReader TagReader) error {
 	}
 }
 
+// continueTime extends a 32-bit FLV timestamp so that decode times never
+// go backwards: they continue across the wrap and stand still while the
+// publisher's clock steps back.
+func (d *DASH) continueTime(ts uint32) uint64 {
+	if len(d.currentSamples) == 0 && d.nextSeq == 0 {
+		d.decodeTime = uint64(ts)
+	} else if step := int32(ts - d.lastTime); step > 0 {
+		d.decodeTime += uint64(step)
+	}
+	d.lastTime = ts
+	return d.decodeTime
+}
+
 // handleHEVCSequenceHeader parses the FLV-carried
 // HEVCDecoderConfigurationRecord. We pull width/height by walking the
 // embedded SPS array, and embed the entire DCR verbatim into the
@@ -264,6 +293,7 @@ func (d *DASH) handleHEVCSequenceHeader(record []byte) error {
 		codec = "hvc1.1.6.L93.B0"
 	}
 	d.mu.Lock()
+	defer d.mu.Unlock()
 	d.isHEVC = true
 	d.codec = codec
 	d.hvccRecord = append([]byte(nil), record...)
@@ -276,17 +306,22 @@ func (d *DASH) handleHEVCSequenceHeader(record []byte) error {
 		Height:     h,
 		HVCCRecord: record,
 	})
-	d.mu.Unlock()
+	return d.writeInit()
+}
 
+// writeInit writes the init segment to disk so http.ServeFile can serve
+// it. The caller holds mu.
+func (d *DASH) writeInit() error {
+	if d.stopRequested() {
+		return nil
+	}
 	if d.streamID != "" {
 		path := filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID))
 		if err := os.WriteFile(path, d.initBytes, 0o644); err != nil {
 			return fmt.Errorf("write init segment: %w", err)
 		}
 	}
-	d.mu.Lock()
 	d.initWritten = true
-	d.mu.Unlock()
 	return nil
 }
 
@@ -416,6 +451,7 @@ func (d *DASH) handleSequenceHeader(record []byte) error {
 		return err
 	}
 	d.mu.Lock()
+	defer d.mu.Unlock()
 	d.sps = sps
 	d.pps = pps
 	d.width = w
@@ -437,29 +473,14 @@ func (d *DASH) handleSequenceHeader(record []byte) error {
 		PPS:       pps,
 		AVCCRecord: record,
 	})
-	d.mu.Unlock()
-
-	//Write init segment to disk so http.ServeFile can serve it.
-	if d.streamID != "" {
-		path := filepath.Join(d.dir, fmt.Sprintf("%s-init.mp4", d.streamID))
-		if err := os.WriteFile(path, d.initBytes, 0o644); err != nil {
-			return fmt.Errorf("write init segment: %w", err)
-		}
-	}
-	d.mu.Lock()
-	d.initWritten = true
-	d.mu.Unlock()
-	return nil
+	return d.writeInit()
 }
 
-// flushCurrent closes the in-progress segment, builds an fMP4 fragment
-// and writes it under <dir>/<streamID>-<seq>.m4s. Old segments are
-// reaped to keep windowSize on disk.
-func (d *DASH) flushCurrent() error {
-	if len(d.currentSamples) < 2 {
-		//Need at least one duration interval. Drop a single-sample
-		//tail rather than emit a malformed fragment.
-		d.currentSamples = d.currentSamples[:0]
+// flushCurrent closes the in-progress segment, which lasts until endTime,
+// builds an fMP4 fragment and writes it under <dir>/<streamID>-<seq>.m4s.
+// Old segments are reaped to keep windowSize on disk.
+func (d *DASH) flushCurrent(endTime uint64) error {
+	if len(d.currentSamples) == 0 {
 		return nil
 	}
 	d.mu.Lock()
@@ -469,17 +490,11 @@ func (d *DASH) flushCurrent() error {
 	startTime := d.currentSamples[0].dts
 	samples := make([]libmp4.Sample, 0, len(d.currentSamples))
 	for i, s := range d.currentSamples {
-		var dur uint64
+		next := endTime
 		if i+1 < len(d.currentSamples) {
-			dur = d.currentSamples[i+1].dts - s.dts
-		} else {
-			//Last sample: use previous interval as a best-guess.
-			if i > 0 {
-				dur = s.dts - d.currentSamples[i-1].dts
-			} else {
-				dur = 33 //~30fps fallback
-			}
+			next = d.currentSamples[i+1].dts
 		}
+		dur := next - s.dts
 		samples = append(samples, libmp4.Sample{
 			Duration:              uint32(dur),
 			Size:                  uint32(len(s.data)),
@@ -497,13 +512,15 @@ func (d *DASH) flushCurrent() error {
 	})
 
 	filename := fmt.Sprintf("%s-%d.m4s", d.streamID, seq)
+	d.mu.Lock()
+	if d.stopRequested() {
+		d.mu.Unlock()
+		return nil
+	}
 	if err := os.WriteFile(filepath.Join(d.dir, filename), frag, 0o644); err != nil {
+		d.mu.Unlock()
 		return fmt.Errorf("write fragment: %w", err)
 	}
-
-	endTime := d.currentSamples[len(d.currentSamples)-1].dts +
-		uint64(samples[len(samples)-1].Duration)
-	d.mu.Lock()
 	d.segments = append(d.segments, segmentInfo{
 		seq:       seq,
 		filename:  filename,
diff --git a/libdash/mpd.go b/libdash/mpd.go
index 6037958..edf424e 100644
--- a/libdash/mpd.go
+++ b/libdash/mpd.go
@@ -2,6 +2,7 @@ package libdash
 
 import (
 	"fmt"
+	"net/url"
 	"strings"
 	"time"
 )
@@ -41,17 +42,8 @@ func buildMPD(in manifestInputs) []byte {
 	}
 	avail := in.availabilityStart.UTC().Format(time.RFC3339)
 	startNumber := in.segments[0].seq
-
-	//Per-segment durations vary slightly; pick the maximum to derive
-	//target. SegmentTimeline gives byte-exact durations, but
-	//SegmentTemplate with a fixed duration is widely supported and
-	//simpler — players treat it as a hint, not a hard constraint.
-	var maxSegDur uint64
-	for _, s := range in.segments {
-		if s.duration > maxSegDur {
-			maxSegDur = s.duration
-		}
-	}
+	//The name is part of a URL template in an XML attribute.
+	name := strings.NewReplacer("$", "$$", "&", "&amp;", ":", "%3A").Replace(url.PathEscape(in.streamID))
 
 	var sb strings.Builder
 	sb.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
@@ -87,15 +79,20 @@ func buildMPD(in manifestInputs) []byte {
 
 	fmt.Fprintf(&sb, `        <SegmentTemplate `+
 		`timescale="%d" `+
-		`duration="%d" `+
 		`startNumber="%d" `+
 		`initialization="%s-init.mp4" `+
-		`media="%s-$Number$.m4s"/>`+"\n",
+		`media="%s-$Number$.m4s">`+"\n",
 		in.timescale,
-		maxSegDur,
 		startNumber,
-		in.streamID, in.streamID,
+		name, name,
 	)
+	//The durations of segments vary: each is listed with its own.
+	sb.WriteString(`          <SegmentTimeline>` + "\n")
+	for _, s := range in.segments {
+		fmt.Fprintf(&sb, `            <S t="%d" d="%d"/>`+"\n", s.startTime, s.duration)
+	}
+	sb.WriteString(`          </SegmentTimeline>` + "\n")
+	sb.WriteString(`        </SegmentTemplate>` + "\n")
 
 	sb.WriteString(`      </Representation>` + "\n")
 	sb.WriteString(`    </AdaptationSet>` + "\n")
-- 
2.43.0


From 1f76f63a292e2e4d51d42ee3e463b07cf0da6513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 32/57] fix: let HLS segments last until the next one starts

---
 libhls/hls.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 7d2c70e..1321614 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -743,9 +743,9 @@ func (hls *HLS) writePSI() error {
 // rotate closes the current segment, reaps old ones beyond the window,
 // and opens a new one starting at the given DTS.
 func (hls *HLS) rotate(nextStartDTS uint64) error {
-	end := hls.currentEndDTS
-	if ticksBetween(end, nextStartDTS) > 0 {
-		end = nextStartDTS //the last frame lasts until the next one
+	end := nextStartDTS //a segment lasts until the next one starts
+	if ticksBetween(hls.currentStartDTS, end) < 0 { //unless the clock went back
+		end = hls.currentEndDTS
 	}
 	hls.finaliseCurrent(end)
 	return hls.openSegment(nextStartDTS)
-- 
2.43.0


From f839a597c0aeffed33b1692d33cf9126155b36c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 33/57] fix: anchor the DASH timeline at the moment the stream
 became available

---
 libdash/dash.go | 5 +++++
 libdash/mpd.go  | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/libdash/dash.go b/libdash/dash.go
index 8d44bc0..f8b62b2 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -64,6 +64,7 @@ type DASH struct {
 
 	segments    []segmentInfo
 	nextSeq     int
+	timeOffset  uint64 //start of the first segment
 	currentSamples []sampleWithTime
 	lastTime       uint32 //FLV timestamp of the newest sample
 	decodeTime     uint64 //its continuation beyond 32 bits
@@ -137,6 +138,7 @@ func (d *DASH) Manifest() []byte {
 		width:             d.width,
 		height:            d.height,
 		codecStr:          d.codec,
+		timeOffset:        d.timeOffset,
 		segments:          append([]segmentInfo(nil), d.segments...),
 	})
 }
@@ -521,6 +523,9 @@ func (d *DASH) flushCurrent(endTime uint64) error {
 		d.mu.Unlock()
 		return fmt.Errorf("write fragment: %w", err)
 	}
+	if seq == 0 {
+		d.timeOffset = startTime
+	}
 	d.segments = append(d.segments, segmentInfo{
 		seq:       seq,
 		filename:  filename,
diff --git a/libdash/mpd.go b/libdash/mpd.go
index edf424e..c61c903 100644
--- a/libdash/mpd.go
+++ b/libdash/mpd.go
@@ -18,6 +18,7 @@ type manifestInputs struct {
 	width             uint16
 	height            uint16
 	codecStr          string //RFC 6381 codec string; empty → avc1 fallback
+	timeOffset        uint64 //where the media timeline stood at availabilityStart
 	segments          []segmentInfo
 }
 
@@ -79,10 +80,12 @@ func buildMPD(in manifestInputs) []byte {
 
 	fmt.Fprintf(&sb, `        <SegmentTemplate `+
 		`timescale="%d" `+
+		`presentationTimeOffset="%d" `+
 		`startNumber="%d" `+
 		`initialization="%s-init.mp4" `+
 		`media="%s-$Number$.m4s">`+"\n",
 		in.timescale,
+		in.timeOffset,
 		startNumber,
 		name, name,
 	)
-- 
2.43.0


From ec7371a90799e1cfd13214b0e797295ea0427c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:31 +0000
Subject: [PATCH 34/57] fix: keep DASH segments in the directory set for the
 application

---
 librtmp/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index 7f27c2d..1ce44d9 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -111,12 +111,13 @@ func (s *server) SetHlsMode(appName string, mode libhls.HLS_MODE) *server {
 }
 
 // SetHlsDir configures the directory where the given app stores HLS
-// segments. If unset it defaults to "./data".
+// and DASH segments. If unset it defaults to "./data".
 func (s *server) SetHlsDir(appName string, dir string) *server {
 	if _, ok := s.apps[appName]; !ok {
 		panic("appName does not exist.")
 	}
 	s.apps[appName].hlsDir = dir
+	s.apps[appName].dashDir = dir
 	return s
 }
 
-- 
2.43.0


From 59c4dc1c3c8b61dc169b0beda9a41610e6961f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 35/57] fix: write WebSocket frames whole, none after the
 close, and bound client frames

---
 librtmp/websocket.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/librtmp/websocket.go b/librtmp/websocket.go
index 7506a9b..7460087 100644
--- a/librtmp/websocket.go
+++ b/librtmp/websocket.go
@@ -2,6 +2,7 @@ package librtmp
 
 import (
 	"bufio"
+	"bytes"
 	"crypto/sha1"
 	"encoding/base64"
 	"encoding/binary"
@@ -11,6 +12,7 @@ import (
 	"net"
 	"net/http"
 	"strings"
+	"sync"
 )
 
 // Minimal RFC 6455 server implementation. Covers exactly what flv.js
@@ -41,8 +43,15 @@ const (
 type wsConn struct {
 	conn net.Conn
 	br   *bufio.Reader
+
+	wmu    sync.Mutex //media and replies come from different goroutines
+	closed bool       //a close frame was sent, nothing may follow
 }
 
+// maxClientFrame bounds what a client may send in one frame. Viewers
+// only ever send control frames and the odd short message.
+const maxClientFrame = 64 << 20
+
 // upgradeWebSocket performs the HTTP/1.1 Upgrade handshake against
 // w/r and returns a connection that can be used to send binary frames.
 // The caller is responsible for hijacking and closing the underlying
@@ -109,13 +118,13 @@ func (ws *wsConn) writeFrame(op wsOpcode, payload []byte) error {
 		header = append(header, ln[:]...)
 	}
 
-	if _, err := ws.conn.Write(header); err != nil {
-		return err
-	}
-	if len(payload) == 0 {
-		return nil
+	ws.wmu.Lock()
+	defer ws.wmu.Unlock()
+	if ws.closed {
+		return net.ErrClosed
 	}
-	_, err := ws.conn.Write(payload)
+	ws.closed = op == wsOpClose
+	_, err := ws.conn.Write(append(header, payload...))
 	return err
 }
 
@@ -148,6 +157,13 @@ func (ws *wsConn) readFrame() (wsOpcode, []byte, error) {
 		plen = binary.BigEndian.Uint64(ext)
 	}
 
+	if plen > maxClientFrame {
+		return 0, nil, fmt.Errorf("frame of %d bytes is too large", plen)
+	}
+	if op >= wsOpClose && (plen > 125 || !fin) {
+		return 0, nil, errors.New("control frames are short and never fragmented")
+	}
+
 	var maskKey [4]byte
 	if masked {
 		if _, err := io.ReadFull(ws.br, maskKey[:]); err != nil {
@@ -155,10 +171,12 @@ func (ws *wsConn) readFrame() (wsOpcode, []byte, error) {
 		}
 	}
 
-	payload := make([]byte, plen)
-	if _, err := io.ReadFull(ws.br, payload); err != nil {
+	//The buffer grows with what arrives, not with what is announced.
+	var body bytes.Buffer
+	if _, err := io.CopyN(&body, ws.br, int64(plen)); err != nil {
 		return 0, nil, err
 	}
+	payload := body.Bytes()
 	if masked {
 		for i := range payload {
 			payload[i] ^= maskKey[i%4]
-- 
2.43.0


From c9acbdfa75f907821854e7512e262f8a455ba501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 36/57] fix: refuse bad WebSocket upgrades with an error status
 and read every Connection line

---
 librtmp/server.go    |  2 ++
 librtmp/websocket.go | 10 +++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index 1ce44d9..c288c6f 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -254,6 +254,8 @@ func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 			ws, err := upgradeWebSocket(w, r)
 			if err != nil {
 				fmt.Println("websocket upgrade error:", err)
+				//Without effect if the connection was taken over already.
+				w.WriteHeader(http.StatusBadRequest)
 				return
 			}
 			defer ws.Close()
diff --git a/librtmp/websocket.go b/librtmp/websocket.go
index 7460087..69a43cf 100644
--- a/librtmp/websocket.go
+++ b/librtmp/websocket.go
@@ -60,9 +60,17 @@ func upgradeWebSocket(w http.ResponseWriter, r *http.Request) (*wsConn, error) {
 	if !strings.EqualFold(r.Header.Get("Upgrade"), "websocket") {
 		return nil, errors.New("not a websocket upgrade")
 	}
-	if !strings.Contains(strings.ToLower(r.Header.Get("Connection")), "upgrade") {
+	//The header may come in several lines.
+	if !strings.Contains(strings.ToLower(strings.Join(r.Header.Values("Connection"), ",")), "upgrade") {
 		return nil, errors.New("missing Connection: Upgrade")
 	}
+	if r.Method != http.MethodGet {
+		return nil, errors.New("websocket upgrade must be a GET")
+	}
+	if r.Header.Get("Sec-WebSocket-Version") != "13" {
+		w.Header().Set("Sec-WebSocket-Version", "13")
+		return nil, errors.New("unsupported websocket version")
+	}
 	key := r.Header.Get("Sec-WebSocket-Key")
 	if key == "" {
 		return nil, errors.New("missing Sec-WebSocket-Key")
-- 
2.43.0


From 56180f37a9befdc2d9027f1391d537eb3b99979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 37/57] fix: decode HTTP request paths once

---
 librtmp/server.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index c288c6f..f86f80b 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -230,7 +230,7 @@ func (s *server) handleHTTPFlv(wg *sync.WaitGroup) error {
 	mux := http.NewServeMux()
 	mux.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
 		//http://{domain}:{port}/{app}/{roomID}.flv[?query]
-		appName, roomID, ok := parseFlvURL(r.URL.Path)
+		appName, roomID, ok := parseFlvURL(r.URL.EscapedPath())
 		if !ok {
 			w.WriteHeader(http.StatusBadRequest)
 			return
@@ -340,7 +340,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 	mux.HandleFunc("/", func(w http.ResponseWriter, r *http.Request) {
 		//http://{domain}:{port}/{app}/{roomID}/index.m3u8
 		//http://{domain}:{port}/{app}/{roomID}/{seq}.ts
-		appName, roomID, file, ok := parseHlsURL(r.URL.Path)
+		appName, roomID, file, ok := parseHlsURL(r.URL.EscapedPath())
 		if !ok {
 			w.WriteHeader(http.StatusBadRequest)
 			return
-- 
2.43.0


From e7a75d28dee3a2acbecb24318f94b2101925edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:00 +0000
Subject: [PATCH 38/57] fix: serve DASH of applications without HLS

---
 librtmp/server.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index f86f80b..39ec57f 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -357,24 +357,6 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			return
 		}
 
-		hls := app.LoadHLS(roomID)
-		if hls == nil {
-			//DELAY mode: lazy-start the transcoder on first playlist
-			//hit so no-one is paying for HLS segmentation when no viewer
-			//is attached.
-			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
-				hls = app.startHLS(room)
-				if hls == nil {
-					w.WriteHeader(http.StatusNotFound)
-					return
-				}
-				hls.WaitFirstSegment()
-			} else {
-				w.WriteHeader(http.StatusNotFound)
-				return
-			}
-		}
-
 		//DASH dispatch (manifest + init + media segments). Lazy-start
 		//if WithDASH is on but no DASH instance exists yet.
 		switch {
@@ -395,6 +377,24 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			return
 		}
 
+		hls := app.LoadHLS(roomID)
+		if hls == nil {
+			//DELAY mode: lazy-start the transcoder on first playlist
+			//hit so no-one is paying for HLS segmentation when no viewer
+			//is attached.
+			if app.hlsMode == libhls.DELAY && strings.HasSuffix(file, ".m3u8") {
+				hls = app.startHLS(room)
+				if hls == nil {
+					w.WriteHeader(http.StatusNotFound)
+					return
+				}
+				hls.WaitFirstSegment()
+			} else {
+				w.WriteHeader(http.StatusNotFound)
+				return
+			}
+		}
+
 		switch {
 		case strings.HasSuffix(file, ".m3u8"):
 			//LL-HLS blocking playlist reload: clients append
-- 
2.43.0


From bcf48c139d064894e56503738550c4d649302a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:05 +0000
Subject: [PATCH 39/57] fix: serve only the named stream's own segment files

---
 librtmp/server.go | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/librtmp/server.go b/librtmp/server.go
index 39ec57f..d53b5c6 100644
--- a/librtmp/server.go
+++ b/librtmp/server.go
@@ -373,7 +373,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 				w.WriteHeader(http.StatusNotFound)
 				return
 			}
-			s.serveDASH(w, r, dash, file)
+			s.serveDASH(w, r, dash, roomID, file)
 			return
 		}
 
@@ -427,12 +427,9 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 			w.Header().Set("Cache-Control", "no-cache")
 			_, _ = w.Write(playlist)
 		case strings.HasSuffix(file, ".ts"):
-			//Resolve and re-clean the path under the segment dir to
-			//defeat path traversal attempts.
-			requested := filepath.Join(hls.Dir(), file)
-			rel, err := filepath.Rel(hls.Dir(), requested)
-			if err != nil || strings.HasPrefix(rel, "..") {
-				w.WriteHeader(http.StatusForbidden)
+			requested, ok := streamFile(hls.Dir(), roomID, file)
+			if !ok {
+				w.WriteHeader(http.StatusNotFound)
 				return
 			}
 			w.Header().Set("Content-Type", "video/mp2t")
@@ -447,6 +444,22 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 	return http.Serve(hlsListener, mux)
 }
 
+// streamFile returns the path of a segment file of the stream, given the
+// name it goes by in the stream's URLs: <stream>-<seq>.ts,
+// <stream>-<seq>.m4s or <stream>-init.mp4. Other names, which belong to
+// other streams or lead out of the directory, are no such files.
+func streamFile(dir, roomID, file string) (full string, ok bool) {
+	if !strings.HasPrefix(file, roomID+"-") || strings.ContainsAny(file, "/\x00") {
+		return "", false
+	}
+	name := file[len(roomID)+1:]
+	seq := strings.TrimSuffix(name, filepath.Ext(name))
+	if name != "init.mp4" && (seq == "" || strings.Trim(seq, "0123456789") != "") {
+		return "", false
+	}
+	return filepath.Join(dir, file), true
+}
+
 // serveDASH handles the three URL shapes a DASH player asks for:
 //   index.mpd            → dynamic manifest
 //   <stream>-init.mp4    → init segment (ftyp + moov)
@@ -454,7 +467,7 @@ func (s *server) handleHls(wg *sync.WaitGroup) error {
 // Both file types are static under dash.Dir() so http.ServeFile is the
 // right tool — and it handles Range requests for free, which is useful
 // if/when we add CMAF byte-range chunked-transfer mode.
-func (s *server) serveDASH(w http.ResponseWriter, r *http.Request, dash *libdash.DASH, file string) {
+func (s *server) serveDASH(w http.ResponseWriter, r *http.Request, dash *libdash.DASH, roomID, file string) {
 	switch {
 	case file == "index.mpd":
 		mpd := dash.Manifest()
@@ -467,20 +480,18 @@ func (s *server) serveDASH(w http.ResponseWriter, r *http.Request, dash *libdash
 		w.Header().Set("Cache-Control", "no-cache")
 		_, _ = w.Write(mpd)
 	case strings.HasSuffix(file, "-init.mp4"):
-		full := filepath.Join(dash.Dir(), file)
-		rel, err := filepath.Rel(dash.Dir(), full)
-		if err != nil || strings.HasPrefix(rel, "..") {
-			w.WriteHeader(http.StatusForbidden)
+		full, ok := streamFile(dash.Dir(), roomID, file)
+		if !ok {
+			w.WriteHeader(http.StatusNotFound)
 			return
 		}
 		w.Header().Set("Content-Type", "video/mp4")
 		w.Header().Set("Access-Control-Allow-Origin", "*")
 		http.ServeFile(w, r, full)
 	case strings.HasSuffix(file, ".m4s"):
-		full := filepath.Join(dash.Dir(), file)
-		rel, err := filepath.Rel(dash.Dir(), full)
-		if err != nil || strings.HasPrefix(rel, "..") {
-			w.WriteHeader(http.StatusForbidden)
+		full, ok := streamFile(dash.Dir(), roomID, file)
+		if !ok {
+			w.WriteHeader(http.StatusNotFound)
 			return
 		}
 		w.Header().Set("Content-Type", "video/iso.segment")
-- 
2.43.0


From efd3f41a0676dda0c0f48e71c703d801b8ea3544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 40/57] fix: ask the upstream of a pull for exactly the
 configured stream

---
 librtmp/client.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/librtmp/client.go b/librtmp/client.go
index 977553e..0a8f822 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -44,10 +44,11 @@ func (pc *PullClient) Run() error {
 	if err != nil {
 		return fmt.Errorf("parse remote URL: %w", err)
 	}
-	host := u.Host
-	if !strings.Contains(host, ":") {
-		host += ":1935"
+	port := u.Port()
+	if port == "" {
+		port = "1935"
 	}
+	host := net.JoinHostPort(u.Hostname(), port)
 	conn, err := net.DialTimeout("tcp", host, 10*time.Second)
 	if err != nil {
 		return fmt.Errorf("dial %s: %w", host, err)
@@ -73,11 +74,14 @@ func (pc *PullClient) Run() error {
 	rtmp.role = rolePublisher
 
 	rtmp.connectApp = parseAppName(u.Path)
-	rtmp.tcURL = strings.TrimSuffix(pc.spec.remoteURL,
-		"/"+rtmp.connectApp+"/"+parsePlayName(u.Path)) + "/" + rtmp.connectApp
+	base := url.URL{Scheme: u.Scheme, User: u.User, Host: u.Host}
+	rtmp.tcURL = base.String() + "/" + rtmp.connectApp
 	rtmp.playType = parsePlayName(u.Path)
 	if rtmp.playType == "" {
 		rtmp.playType = pc.spec.streamID
+	} else if u.RawQuery != "" {
+		//Tokens and the like belong to the stream name in RTMP.
+		rtmp.playType += "?" + u.RawQuery
 	}
 
 	rtmp.HandlerClient()
-- 
2.43.0


From e0636e70aad3b385dfe8539bab7782f087c28516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 41/57] fix: end a pull its upstream refuses, ends or leaves
 unanswered

---
 librtmp/client.go          | 35 +++++++++++++++++++++++++++++++----
 librtmp/command_message.go | 21 +++++++++++++++++++++
 librtmp/control_message.go |  4 ++++
 librtmp/rtmp.go            | 23 +++++++++++++++++++++++
 4 files changed, 79 insertions(+), 4 deletions(-)

diff --git a/librtmp/client.go b/librtmp/client.go
index 0a8f822..af2cde1 100644
--- a/librtmp/client.go
+++ b/librtmp/client.go
@@ -106,23 +106,47 @@ func (rtmp *RTMP) runClientCommands() error {
 	if err := rtmp.sendCommandRaw("connect", 1, connectObj, nil); err != nil {
 		return fmt.Errorf("send connect: %w", err)
 	}
-	if err := rtmp.expectResult(15 * time.Second); err != nil {
+	if err := rtmp.expectResult(clientAnswerTimeout); err != nil {
 		return fmt.Errorf("connect: %w", err)
 	}
 
 	if err := rtmp.sendCommandRaw("createStream", 2, nil, nil); err != nil {
 		return fmt.Errorf("send createStream: %w", err)
 	}
-	if err := rtmp.expectResult(15 * time.Second); err != nil {
+	if err := rtmp.expectResult(clientAnswerTimeout); err != nil {
 		return fmt.Errorf("createStream: %w", err)
 	}
 
 	//play emits no _result on most servers — only an onStatus update.
 	//Don't block waiting for it; the main ParseMessage loop will
 	//absorb whatever comes next and start receiving media.
+	rtmp.commandStream = rtmp.resultStream
 	if err := rtmp.sendCommandRaw("play", 3, nil, []interface{}{rtmp.playType}); err != nil {
 		return fmt.Errorf("send play: %w", err)
 	}
+	rtmp.answerWithin(0)
+	return nil
+}
+
+// doClient handles what an upstream says on a connection we opened: it
+// answers our commands and reports on the stream, it does not command us.
+func (cm *CommandMessage) doClient() error {
+	switch cm.CommandName {
+	case _RESULT:
+		cm.rtmp.resultStream = cm.ResultStream
+		atomic.AddUint32(&cm.rtmp.resultCount, 1)
+	case _ERROR:
+		return fmt.Errorf("upstream refused command %d", cm.TranscationID)
+	case ON_STATUS:
+		switch {
+		case cm.StatusLevel == "error":
+			return fmt.Errorf("upstream reports %s", cm.StatusCode)
+		case cm.StatusCode == "NetStream.Play.Stop",
+			cm.StatusCode == "NetStream.Play.Complete",
+			cm.StatusCode == "NetStream.Play.UnpublishNotify":
+			return io.EOF
+		}
+	}
 	return nil
 }
 
@@ -173,8 +197,10 @@ func (rtmp *RTMP) sendCommandRaw(name string, txnID int, cmdObject map[string]in
 		if i != 0 {
 			fmtType = FMT3
 		}
-		if err := NewChunk(COMMAND_MESSAGE_AMF0, uint32(len(body)), 0,
-			fmtType, csidCommand, body[l:r]).Send(rtmp); err != nil {
+		chunk := NewChunk(COMMAND_MESSAGE_AMF0, uint32(len(body)), 0,
+			fmtType, csidCommand, body[l:r])
+		chunk.MessageStreamID = rtmp.commandStream
+		if err := chunk.Send(rtmp); err != nil {
 			return err
 		}
 	}
@@ -186,6 +212,7 @@ func (rtmp *RTMP) sendCommandRaw(name string, txnID int, cmdObject map[string]in
 // if the deadline is reached without progress.
 func (rtmp *RTMP) expectResult(timeout time.Duration) error {
 	start := atomic.LoadUint32(&rtmp.resultCount)
+	rtmp.answerWithin(timeout)
 	deadline := time.Now().Add(timeout)
 	for {
 		if err := ParseMessage(rtmp); err != nil {
diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index b4af587..c732e7b 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -76,6 +76,11 @@ type CommandMessage struct {
 
 	// Reader flag toggles for receiveAudio / receiveVideo.
 	BoolFlag bool
+
+	// What an upstream answers or reports (_result, onStatus).
+	ResultStream uint32
+	StatusLevel  string
+	StatusCode   string
 }
 
 func NewCommandMessage(mb MessageBase, fields ...interface{} /*commandName string, transcationID int, others*/) (cm *CommandMessage) {
@@ -166,11 +171,27 @@ func (cm *CommandMessage) Parse() (err error) {
 		if len(array) >= 4 {
 			cm.BoolFlag, _ = array[3].(bool)
 		}
+	case _RESULT:
+		if len(array) >= 4 {
+			if f, ok := array[3].(float64); ok {
+				cm.ResultStream = uint32(f)
+			}
+		}
+	case ON_STATUS:
+		if len(array) >= 4 {
+			if info, ok := array[3].(map[string]interface{}); ok {
+				cm.StatusLevel, _ = info["level"].(string)
+				cm.StatusCode, _ = info["code"].(string)
+			}
+		}
 	}
 	return nil
 }
 
 func (cm *CommandMessage) Do() (err error) {
+	if cm.rtmp.client {
+		return cm.doClient()
+	}
 
 	var err1, err2, err3, err4, err5 error
 	switch cm.CommandName {
diff --git a/librtmp/control_message.go b/librtmp/control_message.go
index d0e17ee..5540fa7 100644
--- a/librtmp/control_message.go
+++ b/librtmp/control_message.go
@@ -3,6 +3,7 @@ package librtmp
 import (
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 // CSIDs used by the protocol-control path. The values here predate the
@@ -207,6 +208,9 @@ func (ucm *UserControlMessage) Do() (err error) {
 		}
 		return reply.Send()
 	}
+	if ucm.EventType == StreamEOF && ucm.rtmp.client {
+		return io.EOF
+	}
 	return nil
 }
 
diff --git a/librtmp/rtmp.go b/librtmp/rtmp.go
index 0fc69ef..d63186d 100644
--- a/librtmp/rtmp.go
+++ b/librtmp/rtmp.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"net"
+	"time"
 
 	"github.com/SmartBrave/Athena/easyio"
 	broadcast "github.com/sbraveyoung/GGmpeg/libbroadcast"
@@ -46,6 +47,9 @@ type RTMP struct {
 	connectApp   string
 	tcURL        string
 	resultCount  uint32 //atomic
+	client       bool   //we called the peer: it answers our commands
+	resultStream  uint32 //message stream id of the latest _result
+	commandStream uint32 //message stream id our commands are sent on
 }
 
 type connRole uint8
@@ -117,6 +121,23 @@ func (rtmp *RTMP) cleanup() {
 	rtmp.role = roleUnknown
 }
 
+//clientAnswerTimeout bounds how long an upstream may leave a request of
+//ours unanswered, so that a silent one does not keep the stream's name.
+const clientAnswerTimeout = 15 * time.Second
+
+//answerWithin fails reads from the peer once d has passed; 0 lets them
+//wait forever again.
+func (rtmp *RTMP) answerWithin(d time.Duration) {
+	if rtmp.conn == nil {
+		return
+	}
+	var deadline time.Time
+	if d > 0 {
+		deadline = time.Now().Add(d)
+	}
+	_ = rtmp.conn.SetReadDeadline(deadline)
+}
+
 func (rtmp *RTMP) closeConn() {
 	if rtmp.conn != nil {
 		_ = rtmp.conn.Close()
@@ -143,6 +164,8 @@ func (rtmp *RTMP) HandlerClient() {
 	defer rtmp.cleanup()
 	defer rtmp.closeConn()
 
+	rtmp.client = true
+	rtmp.answerWithin(clientAnswerTimeout)
 	if err := HandshakeClient(rtmp); err != nil {
 		fmt.Println("client handshake error:", err)
 		return
-- 
2.43.0


From 7f161a9c9678093a55bb529693d9f3eeec64a688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 42/57] fix: tell RTMP viewers that their stream has ended

---
 librtmp/room.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/librtmp/room.go b/librtmp/room.go
index c8aa799..d779a47 100644
--- a/librtmp/room.go
+++ b/librtmp/room.go
@@ -89,6 +89,12 @@ func (room *Room) Close() {
 	room.GOP.DisAlive()
 }
 
+func (room *Room) ended() bool {
+	room.mu.RLock()
+	defer room.mu.RUnlock()
+	return room.closed
+}
+
 //player join the room
 func (room *Room) RTMPJoin(rtmp *RTMP) {
 	rtmp.stopPlaying()
@@ -132,6 +138,20 @@ func (room *Room) RTMPJoin(rtmp *RTMP) {
 			p, alive := gopReader.Read()
 			if !alive {
 				fmt.Println("the publisher had been exit.")
+				if room.ended() {
+					//Small enough for one chunk, so it cannot mix with
+					//what the session itself is sending.
+					_ = (&CommandMessageResponse{
+						MessageBase:     MessageBase{rtmp: rtmp},
+						CommandName:     PLAY,
+						CommandRespName: ON_STATUS,
+						CommandObject: ConnectRespCommandObject{
+							Level:       "status",
+							Code:        "NetStream.Play.UnpublishNotify",
+							Description: "Stream ended",
+						},
+					}).Send()
+				}
 				break
 			}
 			if p == libflv.Tag(meta) || p == libflv.Tag(videoHdr) || p == libflv.Tag(audioHdr) {
-- 
2.43.0


From c361021ba45bc466852cfe8f7545bead0c6419f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:44 +0000
Subject: [PATCH 43/57] fix: bound the head of an RTSP request

---
 librtsp/message.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/librtsp/message.go b/librtsp/message.go
index 530f435..5db130d 100644
--- a/librtsp/message.go
+++ b/librtsp/message.go
@@ -28,6 +28,11 @@ const rtspVersion = "RTSP/1.0"
 // parameter lists.
 const maxBodySize = 1 << 20
 
+// maxHeadSize bounds a request's first line and headers together.
+const maxHeadSize = 64 << 10
+
+var errHeadTooLarge = errors.New("request head too large")
+
 // Request is one parsed RTSP request — methods reuse Go's
 // http.Header so callers can use Get / Set / Add idiomatically.
 type Request struct {
@@ -58,7 +63,8 @@ func (h Headers) Del(key string)        { delete(h, strings.ToLower(key)) }
 // ReadRequest consumes one request from r. Body length is taken from
 // the Content-Length header; absent length means no body.
 func ReadRequest(r *bufio.Reader) (*Request, error) {
-	startLine, err := readLine(r)
+	left := maxHeadSize
+	startLine, err := readLine(r, &left)
 	if err != nil {
 		return nil, err
 	}
@@ -72,7 +78,7 @@ func ReadRequest(r *bufio.Reader) (*Request, error) {
 		Version: parts[2],
 		Headers: Headers{},
 	}
-	if err := readHeaders(r, req.Headers); err != nil {
+	if err := readHeaders(r, req.Headers, &left); err != nil {
 		return nil, err
 	}
 	if cl := req.Headers.Get("content-length"); cl != "" {
@@ -116,19 +122,27 @@ func (resp *Response) Bytes() []byte {
 }
 
 // readLine returns the next CRLF-terminated line without the CRLF.
-// Tolerates bare LF (which some clients emit).
-func readLine(r *bufio.Reader) (string, error) {
-	line, err := r.ReadString('\n')
-	if err != nil {
-		return "", err
+// Tolerates bare LF (which some clients emit). The line counts against left.
+func readLine(r *bufio.Reader, left *int) (string, error) {
+	var line []byte
+	for {
+		part, err := r.ReadSlice('\n')
+		if *left -= len(part); *left < 0 {
+			return "", errHeadTooLarge
+		}
+		line = append(line, part...)
+		if err == nil {
+			return strings.TrimRight(string(line), "\r\n"), nil
+		}
+		if err != bufio.ErrBufferFull {
+			return "", err
+		}
 	}
-	line = strings.TrimRight(line, "\r\n")
-	return line, nil
 }
 
-func readHeaders(r *bufio.Reader, h Headers) error {
+func readHeaders(r *bufio.Reader, h Headers, left *int) error {
 	for {
-		line, err := readLine(r)
+		line, err := readLine(r, left)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 9d5466c2254a892ef1c96c7f7fa0717e90a7fd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 44/57] fix: bound an RTP access unit under reassembly

---
 librtsp/rtp_unpack.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/librtsp/rtp_unpack.go b/librtsp/rtp_unpack.go
index be7bf03..c04620d 100644
--- a/librtsp/rtp_unpack.go
+++ b/librtsp/rtp_unpack.go
@@ -87,6 +87,9 @@ func (f *SequenceFilter) Accept(n uint16) bool {
 	return true
 }
 
+// maxAccessUnit is what an FLV tag or an RTMP message can carry.
+const maxAccessUnit = 0xffffff
+
 // H264Reassembler accumulates H.264 NAL units across multiple RTP
 // packets. Single-NAL packets emit immediately; FU-A fragmented NALs
 // are buffered until the End-of-fragment bit fires; STAP-A aggregation
@@ -97,6 +100,7 @@ type H264Reassembler struct {
 	fuBuf     []byte //in-progress FU-A reassembly
 	pending   [][]byte
 	pendingTS uint32
+	size      int //of fuBuf and pending
 	started   bool
 	nextSeq   uint16
 }
@@ -120,9 +124,14 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 	}
 	if pkt.Timestamp != r.pendingTS {
 		//The end of the previous access unit got lost.
-		r.fuBuf, r.pending = nil, nil
+		r.fuBuf, r.pending, r.size = nil, nil, 0
 	}
 	r.pendingTS = pkt.Timestamp
+	if r.size += len(pkt.Payload); r.size > maxAccessUnit {
+		//Nothing could carry it on: its timestamp's packets are discarded.
+		r.fuBuf, r.pending = nil, nil
+		return nil, 0
+	}
 	hdr := pkt.Payload[0]
 	nalType := hdr & 0x1F
 
@@ -172,7 +181,7 @@ func (r *H264Reassembler) Push(pkt *RTPPacket) (nals [][]byte, ts uint32) {
 	if pkt.Marker && len(r.pending) > 0 {
 		nals = r.pending
 		ts = r.pendingTS
-		r.pending = nil
+		r.pending, r.size = nil, 0
 		return
 	}
 	return nil, 0
-- 
2.43.0


From 88a4af7d71e85c2fee6fa124504d7823300f50cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:46 +0000
Subject: [PATCH 45/57] fix: do not print the values of a command

---
 librtmp/command_message.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index c732e7b..e4ba27b 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -117,7 +117,8 @@ func (cm *CommandMessage) Parse() (err error) {
 		return errors.New("invalid data")
 	}
 	for index, a := range array {
-		fmt.Println("index:", index, " a.type:", reflect.TypeOf(a), " a.Value:", reflect.ValueOf(a))
+		//Not the values: each of many references would print all of a large one.
+		fmt.Println("index:", index, " a.type:", reflect.TypeOf(a))
 	}
 
 	var okName, okTxn bool
-- 
2.43.0


From f12ae3a4d6d51f1fcc1d7f47976c66f7ac3d8b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 46/57] fix: bound the groups a broadcast keeps

---
 libbroadcast/broadcast.go | 57 +++++++++++++++++++++++++++++++++++----
 1 file changed, 52 insertions(+), 5 deletions(-)

diff --git a/libbroadcast/broadcast.go b/libbroadcast/broadcast.go
index eeb5dd0..d34eff6 100644
--- a/libbroadcast/broadcast.go
+++ b/libbroadcast/broadcast.go
@@ -5,11 +5,25 @@
 // the current group from its start, then everything written afterwards in
 // order. A reader that falls more than one group behind is moved forward
 // to the start of the current group; it never sees part of two groups.
+//
+// Groups are bounded, so that a stream can run for any time. Without video
+// every audio tag is as good a start as any other and a group is what
+// audioGroup lasts. A group that grows beyond maxGroupSize or maxGroupItems
+// is continued in one that begins amid pictures: who joins there gets no
+// video before the next group.
 package libbroadcast
 
 import (
 	"reflect"
 	"sync"
+
+	"github.com/sbraveyoung/GGmpeg/libflv"
+)
+
+const (
+	maxGroupSize  = 64 << 20
+	maxGroupItems = 1 << 16
+	audioGroup    = 2000 //ms
 )
 
 type item struct {
@@ -20,6 +34,8 @@ type item struct {
 type group struct {
 	seq   uint64
 	items []item
+	size  int  //of the media in items
+	mid   bool //continues the pictures of the group before
 }
 
 type Broadcast struct {
@@ -27,6 +43,9 @@ type Broadcast struct {
 	metas   []interface{} //in effect, at most one per dynamic type
 	cur     *group
 	pending bool //Reset was called; the next Write opens a new group
+	video   bool //there has been some
+	audio   bool
+	start   uint32 //time of the current group, while there is only audio
 	alive   bool
 }
 
@@ -62,8 +81,7 @@ func (bd *Broadcast) WriteMeta(meta interface{}) {
 	if !found {
 		bd.metas = append(bd.metas, meta)
 	}
-	bd.cur.items = append(bd.cur.items, item{p: meta, isMeta: true})
-	bd.c.Broadcast()
+	bd.add(item{p: meta, isMeta: true})
 }
 
 // Write appends p to the current group, or opens a new group with it when
@@ -75,14 +93,39 @@ func (bd *Broadcast) Write(p interface{}) {
 	if !bd.alive {
 		return
 	}
+	if isVideo(p) {
+		bd.video = true
+	} else if tag, ok := p.(*libflv.AudioTag); ok && !bd.video {
+		if now := tag.GetTagInfo().TimeStamp; !bd.audio {
+			bd.audio, bd.start = true, now
+		} else if now-bd.start >= audioGroup {
+			bd.start, bd.pending = now, true
+		}
+	}
 	if bd.pending {
 		bd.cur = &group{seq: bd.cur.seq + 1}
 		bd.pending = false
 	}
-	bd.cur.items = append(bd.cur.items, item{p: p})
+	bd.add(item{p: p})
+}
+
+// add appends to the current group.
+func (bd *Broadcast) add(it item) {
+	if bd.cur.size > maxGroupSize || len(bd.cur.items) > maxGroupItems {
+		bd.cur = &group{seq: bd.cur.seq + 1, mid: true}
+	}
+	bd.cur.items = append(bd.cur.items, it)
+	if tag, ok := it.p.(libflv.Tag); ok {
+		bd.cur.size += int(tag.GetTagInfo().DataSize)
+	}
 	bd.c.Broadcast()
 }
 
+func isVideo(p interface{}) bool {
+	_, ok := p.(*libflv.VideoTag)
+	return ok
+}
+
 // Reset makes the next Write start a new group.
 func (bd *Broadcast) Reset() {
 	bd.c.L.Lock()
@@ -110,7 +153,8 @@ type BroadcastReader struct {
 	last   []interface{} //metas delivered so far, one per dynamic type
 	g      *group
 	index  int
-	joined int //metas of g before this index were delivered up front
+	joined int  //metas of g before this index were delivered up front
+	blind  bool //joined amid pictures: no video until the next ones begin
 	closed bool
 }
 
@@ -143,7 +187,7 @@ func (r *BroadcastReader) join() {
 			r.metas = append(r.metas, m)
 		}
 	}
-	r.g, r.index, r.joined = r.bd.cur, 0, len(r.bd.cur.items)
+	r.g, r.index, r.joined, r.blind = r.bd.cur, 0, len(r.bd.cur.items), r.bd.cur.mid
 }
 
 func (r *BroadcastReader) delivered(meta interface{}) {
@@ -182,11 +226,14 @@ func (r *BroadcastReader) Read() (p interface{}, alive bool) {
 					continue
 				}
 				r.delivered(it.p)
+			} else if r.blind && isVideo(it.p) {
+				continue
 			}
 			return it.p, true
 		}
 		if r.g != r.bd.cur {
 			r.g, r.index, r.joined = r.bd.cur, 0, 0
+			r.blind = r.blind && r.g.mid
 			continue
 		}
 		if !r.bd.alive {
-- 
2.43.0


From dce399cc3dea9dd899ad67b930f4b12eca5c412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:48 +0000
Subject: [PATCH 47/57] fix: bound a DASH segment

---
 libdash/dash.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index f8b62b2..ff4665e 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -31,6 +31,12 @@ import (
 // cost of the 90 kHz precision a typical MPEG-TS stream would carry.
 const defaultTimescale = 1000
 
+// A segment that grows beyond either ends without waiting for a keyframe.
+const (
+	maxSegmentSize    = 64 << 20
+	maxSegmentSamples = 1 << 14
+)
+
 // segmentInfo records one closed media segment for the manifest.
 type segmentInfo struct {
 	seq       int
@@ -66,6 +72,7 @@ type DASH struct {
 	nextSeq     int
 	timeOffset  uint64 //start of the first segment
 	currentSamples []sampleWithTime
+	currentSize    int //of their data
 	lastTime       uint32 //FLV timestamp of the newest sample
 	decodeTime     uint64 //its continuation beyond 32 bits
 	sampleDur      uint64 //the newest known sample duration
@@ -238,16 +245,19 @@ func (d *DASH) Start(gopReader TagReader) error {
 		//Rotate on keyframes once the current segment has hit
 		//targetDur. The first sample of any segment must itself be a
 		//keyframe so the segment is independently decodable.
-		if isKey {
-			if len(d.currentSamples) > 0 {
-				curDur := dts - d.currentSamples[0].dts
-				if curDur*1000 >= uint64(d.targetDur/time.Millisecond)*1000 {
-					if err := d.flushCurrent(dts); err != nil {
-						fmt.Printf("dash: flush segment: %v\n", err)
+		if len(d.currentSamples) > 0 {
+			curDur := dts - d.currentSamples[0].dts
+			full := d.currentSize > maxSegmentSize || len(d.currentSamples) > maxSegmentSamples
+			if full || isKey && curDur*1000 >= uint64(d.targetDur/time.Millisecond)*1000 {
+				if err := d.flushCurrent(dts); err != nil {
+					fmt.Printf("dash: flush segment: %v\n", err)
+					if full {
+						d.currentSamples, d.currentSize = nil, 0
 					}
 				}
 			}
-		} else if len(d.currentSamples) == 0 {
+		}
+		if !isKey && len(d.currentSamples) == 0 {
 			//Drop tags until the first IDR arrives.
 			continue
 		}
@@ -266,6 +276,7 @@ func (d *DASH) Start(gopReader TagReader) error {
 			data: append([]byte(nil), v.Data()...),
 			key:  isKey,
 		})
+		d.currentSize += len(v.Data())
 	}
 }
 
@@ -541,7 +552,7 @@ func (d *DASH) flushCurrent(endTime uint64) error {
 	d.cond.Broadcast()
 	d.mu.Unlock()
 
-	d.currentSamples = d.currentSamples[:0]
+	d.currentSamples, d.currentSize = nil, 0
 	d.readyOnce.Do(func() { close(d.ready) })
 	return nil
 }
-- 
2.43.0


From e786ab6cc397ff25c39fa8377692d90b361e4091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:59 +0000
Subject: [PATCH 48/57] fix: bound an HLS segment

---
 libhls/hls.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 1321614..4dc05e7 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -52,6 +52,9 @@ const (
 // that starts decoding mid-segment can resync quickly.
 const psiInterval = 100 * time.Millisecond
 
+// maxSegmentSize ends a segment that no keyframe has ended yet.
+const maxSegmentSize = 128 << 20
+
 // defaultPartTargetDur is the LL-HLS partial-segment target. Apple's
 // guidance is "PART-TARGET should be set to a value approximating the
 // frame interval"; ~333 ms (one third of a 1-s window) is a common
@@ -362,7 +365,8 @@ outer:
 				}
 			} else {
 				curDur := float64(ticksBetween(hls.currentStartDTS, pes.DTS)) / 90000.0
-				if curDur < 0 || curDur*float64(time.Second) >= float64(hls.targetDur) {
+				full := hls.currentBytes > maxSegmentSize
+				if full || curDur < 0 || curDur*float64(time.Second) >= float64(hls.targetDur) {
 					if err := hls.rotate(pes.DTS); err == errStopped {
 						return nil
 					} else if err != nil {
@@ -375,6 +379,9 @@ outer:
 			//arrives. Avoids emitting a segment that doesn't start at
 			//an IDR.
 			continue
+		} else if hls.currentBytes > maxSegmentSize {
+			hls.finaliseCurrent(pes.DTS)
+			continue
 		}
 
 		//PAT/PMT periodicity: re-inject every psiInterval so clients
-- 
2.43.0


From bb7ece5d37656a429056fea9db6985a289069cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:32 +0000
Subject: [PATCH 49/57] fix: audio whose time steps back a little is no new
 group

---
 libbroadcast/broadcast.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libbroadcast/broadcast.go b/libbroadcast/broadcast.go
index d34eff6..3598dcd 100644
--- a/libbroadcast/broadcast.go
+++ b/libbroadcast/broadcast.go
@@ -98,7 +98,7 @@ func (bd *Broadcast) Write(p interface{}) {
 	} else if tag, ok := p.(*libflv.AudioTag); ok && !bd.video {
 		if now := tag.GetTagInfo().TimeStamp; !bd.audio {
 			bd.audio, bd.start = true, now
-		} else if now-bd.start >= audioGroup {
+		} else if d := int32(now - bd.start); d >= audioGroup || d <= -audioGroup {
 			bd.start, bd.pending = now, true
 		}
 	}
-- 
2.43.0


From 52dea0dc5f8c82491dcd3933aa678b872b85c8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:51 +0000
Subject: [PATCH 50/57] fix: HEVC segments lacked the parameter sets of the
 configuration

---
 libhls/hls.go | 76 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 59 insertions(+), 17 deletions(-)

diff --git a/libhls/hls.go b/libhls/hls.go
index 4dc05e7..d71aedb 100644
--- a/libhls/hls.go
+++ b/libhls/hls.go
@@ -92,6 +92,7 @@ type HLS struct {
 	Cc         map[uint16]uint8 //key:pid — reset at each segment boundary
 	Ah         *libaac.AACHeader
 	AvcParser  *libavc.Parser
+	hevc       hevcConfig
 	audioCache *audioCache
 	align      *align
 
@@ -555,9 +556,9 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.StreamType = 0x24
 
 			if pv.FrameType == libflv.KEY_FRAME && pv.AVCPacketType == libflv.AVC_SEQUENCE_HEADER {
-				//HEVCDecoderConfigurationRecord — publishers also send
-				//VPS/SPS/PPS in-band ahead of every IDR, so we don't
-				//need to memoise them for the muxer.
+				if err := hls.hevc.parse(pv.Data()); err != nil {
+					fmt.Printf("parse hevc header error:%+v\n", err)
+				}
 				return nil, 0, false, true
 			}
 			videoKey = pv.FrameType == libflv.KEY_FRAME
@@ -569,7 +570,7 @@ func (hls *HLS) toPES(tag libflv.Tag) (pes *libmpeg.PES, pid uint16, videoKey bo
 			pes.PESHeaderDataLength = 0x05
 			pes.Index = 0
 			pes.HeaderIndex = 0
-			pes.Data = avccToAnnexB(pv.Data())
+			pes.Data = hls.hevc.annexB(pv.Data(), videoKey)
 			if pv.Cts != 0 {
 				pes.PTS_DTSFlag = 0x03
 				pes.PTS = (pes.DTS + uint64(int64(int32(pv.Cts))*90)) & ptsMask
@@ -625,22 +626,63 @@ func newPAT(videoStreamType uint8) *libmpeg.PAT {
 	}
 }
 
-// avccToAnnexB rewrites a 4-byte length-prefixed NAL stream into an
-// AnnexB stream (start code 0x00000001 between NALs). Codec-agnostic —
-// works for both H.264 and HEVC since both use the same AVCC framing
-// in FLV.
-func avccToAnnexB(buf []byte) []byte {
+// hevcConfig is what an HEVCDecoderConfigurationRecord says about the
+// access units that follow it.
+type hevcConfig struct {
+	sets    []byte //the parameter sets, with start codes
+	lenSize int    //bytes of a NAL unit's length prefix; 0 means 4
+}
+
+const hevcNalSPS = 33
+
+// parse replaces the configuration by the one of src.
+func (c *hevcConfig) parse(src []byte) error {
+	if len(src) < 23 {
+		return fmt.Errorf("record of %d bytes", len(src))
+	}
+	sets, rest := []byte{}, src[23:]
+	for arrays := src[22]; arrays > 0; arrays-- {
+		if len(rest) < 3 {
+			return fmt.Errorf("truncated array")
+		}
+		n := int(rest[1])<<8 | int(rest[2])
+		for rest = rest[3:]; n > 0; n-- {
+			if len(rest) < 2 || len(rest)-2 < (int(rest[0])<<8|int(rest[1])) {
+				return fmt.Errorf("truncated parameter set")
+			}
+			end := 2 + (int(rest[0])<<8 | int(rest[1]))
+			sets = append(append(sets, 0, 0, 0, 1), rest[2:end]...)
+			rest = rest[end:]
+		}
+	}
+	c.sets, c.lenSize = sets, int(src[21]&3)+1
+	return nil
+}
+
+// annexB rewrites an access unit of length-prefixed NAL units into one with
+// start codes. A keyframe that does not bring a sequence parameter set of its
+// own is preceded by those of the configuration.
+func (c *hevcConfig) annexB(buf []byte, key bool) []byte {
+	lenSize := c.lenSize
+	if lenSize == 0 {
+		lenSize = 4
+	}
 	out := make([]byte, 0, len(buf)+16)
-	for off := 0; off+4 <= len(buf); {
-		size := int(buf[off])<<24 | int(buf[off+1])<<16 |
-			int(buf[off+2])<<8 | int(buf[off+3])
-		off += 4
-		if size <= 0 || off+size > len(buf) {
+	for len(buf) > lenSize {
+		size := 0
+		for _, b := range buf[:lenSize] {
+			size = size<<8 | int(b)
+		}
+		buf = buf[lenSize:]
+		if size <= 0 || size > len(buf) {
 			break
 		}
-		out = append(out, 0x00, 0x00, 0x00, 0x01)
-		out = append(out, buf[off:off+size]...)
-		off += size
+		key = key && buf[0]>>1&0x3f != hevcNalSPS
+		out = append(append(out, 0, 0, 0, 1), buf[:size]...)
+		buf = buf[size:]
+	}
+	if key {
+		out = append(append([]byte{}, c.sets...), out...)
 	}
 	return out
 }
-- 
2.43.0


From 766d26f9a1c3c20324f3cebf35780c0d796a2024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:53 +0000
Subject: [PATCH 51/57] fix: AMF3 command and data messages start with a format
 byte

---
 librtmp/command_message.go |  2 +-
 librtmp/data_message.go    |  2 +-
 librtmp/message.go         | 12 ++++++++++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/librtmp/command_message.go b/librtmp/command_message.go
index e4ba27b..e56a2ff 100644
--- a/librtmp/command_message.go
+++ b/librtmp/command_message.go
@@ -108,7 +108,7 @@ func (cm *CommandMessage) Send() (err error) {
 
 func (cm *CommandMessage) Parse() (err error) {
 	var array []interface{}
-	array, err = cm.amf.Decode(easyio.NewEasyReader(bytes.NewReader(cm.messagePayload)))
+	array, err = cm.amf.Decode(easyio.NewEasyReader(bytes.NewReader(cm.amf0Payload())))
 	if err != nil {
 		return errors.Wrap(err, "amf.Decode")
 	}
diff --git a/librtmp/data_message.go b/librtmp/data_message.go
index dd859f0..d3c0c31 100644
--- a/librtmp/data_message.go
+++ b/librtmp/data_message.go
@@ -55,7 +55,7 @@ func (dm *DataMessage) Parse() (err error) {
 		DataSize:  dm.messageLength,
 		TimeStamp: dm.messageTime,
 		StreamID:  0,
-	}, dm.amf, dm.messagePayload)
+	}, dm.amf, dm.amf0Payload())
 	if err != nil {
 		return err
 	}
diff --git a/librtmp/message.go b/librtmp/message.go
index 6b274c7..62b84d7 100644
--- a/librtmp/message.go
+++ b/librtmp/message.go
@@ -211,6 +211,18 @@ func ParseMessage(rtmp *RTMP) (err error) {
 	return message.Do()
 }
 
+// amf0Payload returns the AMF0 values of the message: an AMF3 message starts
+// with a format byte of 0 when, as usual, AMF0 values follow.
+func (mb *MessageBase) amf0Payload() []byte {
+	switch mb.messageType {
+	case DATA_MESSAGE_AMF3, COMMAND_MESSAGE_AMF3:
+		if len(mb.messagePayload) > 0 && mb.messagePayload[0] == 0 {
+			return mb.messagePayload[1:]
+		}
+	}
+	return mb.messagePayload
+}
+
 // DiscardMessage consumes (and drops) a message whose type we don't
 // implement — used for shared-object and other seldom-seen types so
 // ParseMessage doesn't abort the connection.
-- 
2.43.0


From d855c0a5c0031763875ee4720cef1e5a370b24bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:56 +0000
Subject: [PATCH 52/57] fix: a data message without arguments dropped the
 publisher

---
 libflv/meta.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libflv/meta.go b/libflv/meta.go
index 1faaf0d..ed163d3 100644
--- a/libflv/meta.go
+++ b/libflv/meta.go
@@ -75,6 +75,12 @@ func ParseMetaTag(tb TagBase, amf libamf.AMF, b []byte) (meta *MetaTag, err erro
 			meta.SecondField = s
 		}
 		props = array[1]
+	case len(array) == 1: //a name alone: a call without arguments
+		name, ok := array[0].(string)
+		if !ok {
+			return meta, errors.New("invalid onMetaData payload")
+		}
+		meta.SecondField = name
 	default:
 		return meta, errors.New("invalid onMetaData payload")
 	}
-- 
2.43.0


From 46d1b3e45f4fa1f9c3e6e1ca02751e1040206f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:59 +0000
Subject: [PATCH 53/57] fix: an empty audio or video message dropped the
 publisher

---
 librtmp/audio.go | 5 ++++-
 librtmp/video.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/librtmp/audio.go b/librtmp/audio.go
index ebc4cae..5107a77 100644
--- a/librtmp/audio.go
+++ b/librtmp/audio.go
@@ -68,6 +68,9 @@ func (am *AudioMessage) Send() (err error) {
 }
 
 func (am *AudioMessage) Parse() (err error) {
+	if len(am.messagePayload) == 0 { //some encoders fill gaps with empty messages
+		return nil
+	}
 	am.audioTag, err = libflv.ParseAudioTag(libflv.TagBase{
 		TagType:   libflv.AUDIO_TAG,
 		TimeStamp: am.messageTime,
@@ -81,7 +84,7 @@ func (am *AudioMessage) Parse() (err error) {
 }
 
 func (am *AudioMessage) Do() (err error) {
-	if am.rtmp.room == nil || am.rtmp.role == rolePlayer {
+	if am.audioTag == nil || am.rtmp.room == nil || am.rtmp.role == rolePlayer {
 		return nil
 	}
 	if am.audioTag.SoundFormat == libflv.FLV_AUDIO_AAC && am.audioTag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
diff --git a/librtmp/video.go b/librtmp/video.go
index f02092d..9cbf9c4 100644
--- a/librtmp/video.go
+++ b/librtmp/video.go
@@ -69,6 +69,9 @@ func (vm *VideoMessage) Send() (err error) {
 }
 
 func (vm *VideoMessage) Parse() (err error) {
+	if len(vm.messagePayload) == 0 { //some encoders fill gaps with empty messages
+		return nil
+	}
 	vm.videoTag, err = libflv.ParseVideoTag(libflv.TagBase{
 		TagType:   libflv.VIDEO_TAG,
 		TimeStamp: vm.messageTime,
@@ -82,7 +85,7 @@ func (vm *VideoMessage) Parse() (err error) {
 }
 
 func (vm *VideoMessage) Do() (err error) {
-	if vm.rtmp.room == nil || vm.rtmp.role == rolePlayer {
+	if vm.videoTag == nil || vm.rtmp.room == nil || vm.rtmp.role == rolePlayer {
 		return nil
 	}
 	//Only these codecs have packet types.
-- 
2.43.0


From 7d41bd7f6103cf1907a4dc7b96dd397fa5c2558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:27 +0000
Subject: [PATCH 54/57] fix: the header of a published Opus stream was not kept

---
 librtmp/audio.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/librtmp/audio.go b/librtmp/audio.go
index 5107a77..ab3b3f1 100644
--- a/librtmp/audio.go
+++ b/librtmp/audio.go
@@ -87,7 +87,8 @@ func (am *AudioMessage) Do() (err error) {
 	if am.audioTag == nil || am.rtmp.room == nil || am.rtmp.role == rolePlayer {
 		return nil
 	}
-	if am.audioTag.SoundFormat == libflv.FLV_AUDIO_AAC && am.audioTag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
+	typed := am.audioTag.SoundFormat == libflv.FLV_AUDIO_AAC || am.audioTag.SoundFormat == libflv.FLV_AUDIO_OPUS
+	if typed && am.audioTag.AACPacketType == libflv.AAC_SEQUENCE_HEADER {
 		am.rtmp.room.setAudioSequenceHeader(am.audioTag)
 		am.rtmp.room.GOP.WriteMeta(am.audioTag)
 		fmt.Printf("write packet audio :%+v\n", am.audioTag)
-- 
2.43.0


From 857bed91b96aa1cb619584c12f4f4598e4cb219e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:34 +0000
Subject: [PATCH 55/57] fix: rtsp answers a track it does not read with the
 channels asked for

---
 librtmp/rtsp_server.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 3e84d31..28c032e 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -353,13 +353,14 @@ func (s *rtspSession) handleSetup(req *librtsp.Request, resp *librtsp.Response)
 	*ch, *rtpSock, *rtcpSock = rtpCh, udpSocks[0], udpSocks[1]
 	*peer = &net.UDPAddr{IP: s.peerHostIP(), Port: clientRTPPort}
 	if s.ingest != nil {
+		readCh := rtpCh
 		if useUDP || !supported {
-			rtpCh = -1 //not interleaved, or nothing we could read
+			readCh = -1 //not interleaved, or nothing we could read
 		}
 		if isAudio {
-			s.ingest.audioCh = rtpCh
+			s.ingest.audioCh = readCh
 		} else {
-			s.ingest.videoCh = rtpCh
+			s.ingest.videoCh = readCh
 		}
 	} else if isAudio {
 		s.audioRTP = librtsp.NewRTPPacker(97, s.audioSSRC)
-- 
2.43.0


From 63eef6cdce960058744e2dd3ada0aa8808630b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 56/57] fix: dash names the codecs of HEVC after the hev1 entry
 and its configuration

---
 libdash/dash.go | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/libdash/dash.go b/libdash/dash.go
index ff4665e..e59d73c 100644
--- a/libdash/dash.go
+++ b/libdash/dash.go
@@ -13,8 +13,10 @@
 package libdash
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math/bits"
 	"os"
 	"path/filepath"
 	"strings"
@@ -58,7 +60,7 @@ type DASH struct {
 	// Decoder configuration learned from the video sequence header.
 	mu          sync.Mutex
 	cond        *sync.Cond
-	codec       string //"avc1.42E01E" or "hvc1.…" derived at init time
+	codec       string //"avc1.42E01E" or "hev1.…" derived at init time
 	isHEVC      bool
 	sps         []byte
 	pps         []byte
@@ -303,7 +305,7 @@ func (d *DASH) handleHEVCSequenceHeader(record []byte) error {
 		//Fall back to a placeholder codec string; many players accept
 		//missing dimensions when the in-band parameter sets later
 		//replenish them.
-		codec = "hvc1.1.6.L93.B0"
+		codec = "hev1.1.6.L93.B0"
 	}
 	d.mu.Lock()
 	defer d.mu.Unlock()
@@ -347,9 +349,7 @@ func parseHEVCDCRDimensions(src []byte) (w, h uint16, codec string, err error) {
 		err = fmt.Errorf("HEVC DCR too short: %d", len(src))
 		return
 	}
-	profileIDC := src[1] & 0x1F
-	levelIDC := src[12]
-	codec = fmt.Sprintf("hvc1.%d.6.L%d.B0", profileIDC, levelIDC)
+	codec = hevcCodecString(src)
 
 	off := 22
 	if off >= len(src) {
@@ -384,6 +384,24 @@ func parseHEVCDCRDimensions(src []byte) (w, h uint16, codec string, err error) {
 	return
 }
 
+// hevcCodecString renders the RFC 6381 codecs value of a decoder
+// configuration record (ISO 14496-15 Annex E): profile space and idc,
+// reversed compatibility flags, tier and level, constraint bytes up to
+// the last one in use. The sample entry is hev1.
+func hevcCodecString(rec []byte) string {
+	space := [4]string{"", "A", "B", "C"}[rec[1]>>6]
+	compat := bits.Reverse32(binary.BigEndian.Uint32(rec[2:6]))
+	tier := 'L'
+	if rec[1]&0x20 != 0 {
+		tier = 'H'
+	}
+	codec := fmt.Sprintf("hev1.%s%d.%X.%c%d", space, rec[1]&0x1F, compat, tier, rec[12])
+	for _, c := range bytes.TrimRight(rec[6:12], "\x00") {
+		codec += fmt.Sprintf(".%X", c)
+	}
+	return codec
+}
+
 // parseHEVCSPSDimensions extracts pic_width_in_luma_samples and
 // pic_height_in_luma_samples from an HEVC SPS. Limited to the prefix
 // bits up through those fields — anything beyond requires a full
-- 
2.43.0


From 940683452b95e4a4285ee5f84015a99f09673c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:51 +0000
Subject: [PATCH 57/57] fix: rtsp describes streams with several sequence
 parameter sets

---
 librtmp/rtsp_server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/librtmp/rtsp_server.go b/librtmp/rtsp_server.go
index 28c032e..b963987 100644
--- a/librtmp/rtsp_server.go
+++ b/librtmp/rtsp_server.go
@@ -926,6 +926,13 @@ func parseAVCDCRForRTSP(src []byte) (sps, pps []byte, w, h uint16, err error) {
 	}
 	sps = append([]byte(nil), src[off:off+spsLen]...)
 	off += spsLen
+	for i := byte(1); i < src[5]&0x1F; i++ { //the first one is announced
+		if off+2 > len(src) {
+			err = fmt.Errorf("DCR truncated at SPS length")
+			return
+		}
+		off += 2 + int(src[off])<<8 + int(src[off+1])
+	}
 	if off >= len(src) {
 		err = fmt.Errorf("DCR truncated before PPS count")
 		return
-- 
2.43.0

