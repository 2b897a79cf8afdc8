From 439a044498eb14927a61bf3e83b8777353345900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:49 +0000
Subject: [PATCH 01/36] verif: dial seam behind the verif build tag

---
 pkg/gotitnet/connection.go |  2 +-
 pkg/gotitnet/dial.go       | 12 ++++++++++++
 pkg/gotitnet/dial_verif.go | 16 ++++++++++++++++
 3 files changed, 29 insertions(+), 1 deletion(-)
 create mode 100644 pkg/gotitnet/dial.go
 create mode 100644 pkg/gotitnet/dial_verif.go

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 2c31b3c..878d417 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -25,7 +25,7 @@ type TimeoutConn struct {
 }
 
 func NewTimeoutConn(network, address string, timeout time.Duration) (*TimeoutConn, error) {
-	conn, err := net.DialTimeout(network, address, DialTimeout)
+	conn, err := dial(network, address, DialTimeout)
 	if err != nil {
 		return nil, fmt.Errorf("timedConn (%s): %w", address, err)
 	}
diff --git a/pkg/gotitnet/dial.go b/pkg/gotitnet/dial.go
new file mode 100644
index 0000000..0c7999a
--- /dev/null
+++ b/pkg/gotitnet/dial.go
@@ -0,0 +1,12 @@
+//go:build !verif
+
+package gotitnet
+
+import (
+	"net"
+	"time"
+)
+
+func dial(network, address string, timeout time.Duration) (net.Conn, error) {
+	return net.DialTimeout(network, address, timeout)
+}
diff --git a/pkg/gotitnet/dial_verif.go b/pkg/gotitnet/dial_verif.go
new file mode 100644
index 0000000..0148a51
--- /dev/null
+++ b/pkg/gotitnet/dial_verif.go
@@ -0,0 +1,16 @@
+//go:build verif
+
+package gotitnet
+
+import (
+	"net"
+	"time"
+)
+
+// Dial opens every outgoing connection when built with the verif tag, so that
+// a verification harness can stand in for the network.
+var Dial = net.DialTimeout
+
+func dial(network, address string, timeout time.Duration) (net.Conn, error) {
+	return Dial(network, address, timeout)
+}
-- 
2.43.0


From 49e9b2d23b3490cebada1d2436f76b196e6f4e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:05 +0000
Subject: [PATCH 02/36] fix: write and print bencode dictionaries with keys in
 ascending order

---
 pkg/bencode/elements.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkg/bencode/elements.go b/pkg/bencode/elements.go
index d271592..3b7d2c7 100644
--- a/pkg/bencode/elements.go
+++ b/pkg/bencode/elements.go
@@ -1,6 +1,7 @@
 package bencode
 
 import (
+	"sort"
 	"strconv"
 )
 
@@ -72,7 +73,8 @@ func (bencode DictElement) String() string {
 
 func (bencode DictElement) Encode() string {
 	encoded := "d"
-	for k, v := range bencode.value {
+	for _, k := range bencode.keys() {
+		v := bencode.value[k]
 		if v == nil {
 			continue
 		}
@@ -87,6 +89,16 @@ func (bencode DictElement) Value(key string) Bencode {
 	return bencode.value[key]
 }
 
+// keys returns dictionary keys in the order bencode requires them.
+func (bencode DictElement) keys() []string {
+	keys := make([]string, 0, len(bencode.value))
+	for k := range bencode.value {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	return keys
+}
+
 func (bencode DictElement) Raw() []byte {
 	return bencode.raw
 }
@@ -97,7 +109,8 @@ func prettyPrint(bencode Bencode, tabs string) string {
 		tabs = addTab(tabs)
 		data := "{" + newLine(tabs)
 
-		for k, v := range value.value {
+		for _, k := range value.keys() {
+			v := value.value[k]
 			if v == nil {
 				continue
 			}
-- 
2.43.0


From 5cf4a62c07d39084d3a6f6efefc307c543bb5612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:06 +0000
Subject: [PATCH 03/36] fix: reject bencode numbers that are empty or out of
 range, accept negative ones

---
 pkg/bencode/parse.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index f6a6ec3..112d6f6 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -2,6 +2,7 @@ package bencode
 
 import (
 	"errors"
+	"strconv"
 	"unsafe"
 )
 
@@ -9,6 +10,7 @@ var (
 	ErrElementEnd   = errors.New("element not ended with 'e'")
 	ErrColonMissing = errors.New("missing ':' in string element")
 	ErrStringLength = errors.New("string length invalid")
+	ErrNumber       = errors.New("number missing or out of range")
 )
 
 func Parse(data []byte) (Bencode, error) {
@@ -90,14 +92,13 @@ func (s scanner) isDigit() bool {
 }
 
 func (s *scanner) number() (int, error) {
-	n := 0
 	for s.isDigit() {
-		d := int(s.peek() - '0')
-		n += d
-		n *= 10
 		s.advance()
 	}
-	n /= 10
+	n, err := strconv.Atoi(string(s.read()))
+	if err != nil {
+		return 0, ErrNumber
+	}
 
 	s.position()
 	return n, nil
@@ -106,6 +107,9 @@ func (s *scanner) number() (int, error) {
 func (s *scanner) readInt() (IntElement, error) {
 	s.advance()
 	s.position()
+	if s.peek() == '-' {
+		s.advance()
+	}
 
 	n, err := s.number()
 	if err != nil {
@@ -127,11 +131,11 @@ func (s *scanner) readString() (string, error) {
 	if !s.match(':') {
 		return "", ErrColonMissing
 	}
-	s.current += length
 	// we need to check if we are trying to read beyond string length.
-	if s.current > len(s.bencode) {
+	if length > len(s.bencode)-s.current {
 		return "", ErrStringLength
 	}
+	s.current += length
 
 	strElement := b2s(s.read())
 	s.position()
-- 
2.43.0


From 0eb9da3ed20054632a1719d3462fd87324e4a481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:31 +0000
Subject: [PATCH 04/36] fix: limit bencode nesting so hostile input can not
 exhaust the stack

---
 pkg/bencode/parse.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/bencode/parse.go b/pkg/bencode/parse.go
index 112d6f6..cbd2d40 100644
--- a/pkg/bencode/parse.go
+++ b/pkg/bencode/parse.go
@@ -6,11 +6,16 @@ import (
 	"unsafe"
 )
 
+// maxDepth limits how deep lists and dictionaries can be nested, so hostile
+// input can not exhaust the stack.
+const maxDepth = 10000
+
 var (
 	ErrElementEnd   = errors.New("element not ended with 'e'")
 	ErrColonMissing = errors.New("missing ':' in string element")
 	ErrStringLength = errors.New("string length invalid")
 	ErrNumber       = errors.New("number missing or out of range")
+	ErrDepth        = errors.New("elements nested too deep")
 )
 
 func Parse(data []byte) (Bencode, error) {
@@ -21,6 +26,7 @@ func Parse(data []byte) (Bencode, error) {
 type scanner struct {
 	start   int
 	current int
+	depth   int
 	bencode []byte
 }
 
@@ -40,6 +46,12 @@ func (s *scanner) Parse() (Bencode, error) {
 }
 
 func (s *scanner) Next() (Bencode, error) {
+	if s.depth > maxDepth {
+		return nil, ErrDepth
+	}
+	s.depth++
+	defer func() { s.depth-- }()
+
 	switch s.peek() {
 	case 'l':
 		return s.readList()
-- 
2.43.0


From 992d53807a4ccc16be66c3afd8aa4406df1fd3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:32 +0000
Subject: [PATCH 05/36] fix: return an error instead of panicking when a
 decoded document is not a dictionary

---
 pkg/bencode/tag_parser.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/bencode/tag_parser.go b/pkg/bencode/tag_parser.go
index 412f82b..63aaca3 100644
--- a/pkg/bencode/tag_parser.go
+++ b/pkg/bencode/tag_parser.go
@@ -52,6 +52,15 @@ func processTarget(target interface{}, bencode Bencode) error {
 		return ErrWrongTarget
 	}
 
+	dict, ok := bencode.(*DictElement)
+	if !ok {
+		return &TypeError{
+			ElementName: val.Type().Name(),
+			FieldType:   val.Type().String(),
+			BencodeType: reflect.TypeOf(bencode).String(),
+		}
+	}
+
 	for i := 0; i < val.NumField(); i++ {
 		f := val.Field(i)
 		ftype := val.Type().Field(i)
@@ -69,10 +78,6 @@ func processTarget(target interface{}, bencode Bencode) error {
 			}
 		}
 
-		dict, ok := bencode.(*DictElement)
-		if !ok {
-			panic("bencode internal: bencode element not *DictElement")
-		}
 		value := dict.Value(tagName)
 		if value == nil && !optional {
 			return fmt.Errorf("Required ben field %q not found", tagName)
-- 
2.43.0


From 60c439cd19e533a3b6be7450b3cf36623a9365e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:06 +0000
Subject: [PATCH 06/36] fix: create nested torrent files and refuse paths that
 leave the download directory

---
 pkg/torrent/torrent.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 6d13ff5..0556afb 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"crypto/sha1"
 	"errors"
+	"fmt"
 	"math"
 	"os"
 	"path/filepath"
@@ -104,7 +105,7 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 	t.downloaded = bitset.New(uint(t.PiecesNum))
 
 	if err := t.initDownloadDir(downloadDir); err != nil {
-		return nil, err
+		return nil, multierr.Append(err, t.Close())
 	}
 
 	return t, nil
@@ -140,21 +141,28 @@ func (t *Torrent) Done() bool {
 }
 
 func (t *Torrent) initDownloadDir(root string) error {
+	// name and paths come from the torrent file, never follow them out of root
+	if !filepath.IsLocal(t.Name) {
+		return fmt.Errorf("invalid torrent name %q", t.Name)
+	}
 	path := filepath.Join(root, t.Name)
 	var filePaths []string
 	if t.IsDirectory {
-		if err := os.Mkdir(path, os.ModePerm); err != nil && os.IsNotExist(err) {
-			return err
-		}
-
 		for _, tf := range t.TorrentFiles {
-			filePaths = append(filePaths, filepath.Join(path, tf.Path[0]))
+			filePath := filepath.Join(tf.Path...)
+			if !filepath.IsLocal(filePath) {
+				return fmt.Errorf("invalid torrent file path %q", tf.Path)
+			}
+			filePaths = append(filePaths, filepath.Join(path, filePath))
 		}
 	} else {
 		filePaths = append(filePaths, path)
 	}
 
 	for _, path := range filePaths {
+		if err := os.MkdirAll(filepath.Dir(path), os.ModePerm); err != nil {
+			return err
+		}
 		f, err := os.Create(path)
 		if err != nil {
 			return err
@@ -228,7 +236,7 @@ func (t *Torrent) writePieceData(data []byte, piecePoss int) error {
 		}
 
 		t.logger.Debug("Writing to file",
-			zap.String("file", t.TorrentFiles[fileIdx].Path[0]),
+			zap.String("file", t.TorrentFiles[fileIdx].FilePath()),
 			zap.Int("position", piecePoss),
 			zap.Int("bytes", toWrite))
 
-- 
2.43.0


From 4864406ef1c2a89e4f66b54e73a70b5c6a6c6531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:07 +0000
Subject: [PATCH 07/36] fix: refuse torrents whose lengths and piece hashes do
 not add up

---
 pkg/torrent/torrent.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 0556afb..a85156e 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -5,7 +5,6 @@ import (
 	"crypto/sha1"
 	"errors"
 	"fmt"
-	"math"
 	"os"
 	"path/filepath"
 	"sync"
@@ -86,7 +85,7 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 		announceSet.Add(el)
 	}
 	t.Trackers = announceSet
-	t.IsDirectory = metainfo.Info.Length == 0
+	t.IsDirectory = metainfo.Info.Length == 0 && len(metainfo.Info.Files) > 0
 
 	if !t.IsDirectory {
 		t.Length = int(metainfo.Info.Length)
@@ -95,12 +94,27 @@ func New(metainfo *bencode.Metainfo, downloadDir string, logger *zap.Logger) (*T
 
 		var completeLength = 0
 		for _, file := range files {
+			if file.Length < 0 || completeLength+file.Length < 0 {
+				return nil, fmt.Errorf("invalid torrent file length %d", file.Length)
+			}
 			completeLength += file.Length
 		}
 		t.TorrentFiles = metainfo.Info.Files
 		t.Length = completeLength
 	}
-	t.PiecesNum = int(math.Ceil(float64(t.Length) / float64(t.PieceLength)))
+	if t.Length < 0 {
+		return nil, fmt.Errorf("invalid torrent length %d", t.Length)
+	}
+	if t.PieceLength <= 0 {
+		return nil, fmt.Errorf("invalid piece length %d", t.PieceLength)
+	}
+	t.PiecesNum = t.Length / t.PieceLength
+	if t.Length%t.PieceLength != 0 {
+		t.PiecesNum++
+	}
+	if len(t.Pieces) != t.PiecesNum {
+		return nil, fmt.Errorf("torrent has %d pieces and %d piece hashes", t.PiecesNum, len(t.Pieces))
+	}
 	t.requested = bitset.New(uint(t.PiecesNum))
 	t.downloaded = bitset.New(uint(t.PiecesNum))
 
-- 
2.43.0


From d0a66bed761ea88814698e29faea8cade253f6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:08 +0000
Subject: [PATCH 08/36] fix: fail the hash check of pieces the torrent does not
 have

---
 pkg/torrent/torrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index a85156e..2136b7f 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -188,6 +188,10 @@ func (t *Torrent) initDownloadDir(root string) error {
 }
 
 func (t *Torrent) CheckPiece(data []byte, index int) bool {
+	if index < 0 || index >= len(t.Pieces) {
+		return false
+	}
+
 	hasher := sha1.New()
 	hasher.Write(data)
 	hash := hasher.Sum(nil)
-- 
2.43.0


From d24c436cc7b4541299fd313ff23b65e1a72512e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:09 +0000
Subject: [PATCH 09/36] fix: complete the shorter last piece, and only pieces
 and bytes that were stored

---
 pkg/torrent/torrent.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 2136b7f..d4a6b14 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -132,6 +132,13 @@ func (t *Torrent) SetDownloaded(pieceIndx uint) {
 	t.downloaded.Set(pieceIndx)
 }
 
+func (t *Torrent) isDownloaded(pieceIndx uint) bool {
+	t.downloadedMu.Lock()
+	defer t.downloadedMu.Unlock()
+
+	return t.downloaded.Test(pieceIndx)
+}
+
 func (t *Torrent) Next(have *bitset.BitSet) (uint, bool) {
 	t.requestedMu.Lock()
 	defer t.requestedMu.Unlock()
@@ -200,20 +207,34 @@ func (t *Torrent) CheckPiece(data []byte, index int) bool {
 }
 
 func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Stats) {
+	// pieces with blocks that could not be written
+	failed := map[uint32]struct{}{}
+
 	for msg := range piecesCh {
-		piecePoss := int(msg.Index())*t.PieceLength + int(msg.Offset())
-		stats.AddDownload(uint64(len(msg.Data())))
+		if t.isDownloaded(uint(msg.Index())) {
+			continue
+		}
+		if msg.Offset() == 0 {
+			delete(failed, msg.Index())
+		}
 
+		piecePoss := int(msg.Index())*t.PieceLength + int(msg.Offset())
 		if err := t.writePieceData(msg.Data(), piecePoss); err != nil {
 			t.logger.Error("Failed to write piece",
 				zap.Int("index", int(msg.Index())),
 				zap.Int("offset", int(msg.Offset())),
 				zap.Error(err))
+			failed[msg.Index()] = struct{}{}
 			continue
 		}
+		stats.AddDownload(uint64(len(msg.Data())))
 
-		if int(msg.Offset())+len(msg.Data()) == t.PieceLength {
-			t.SetDownloaded(uint(msg.Index()))
+		// last piece can be shorter than others
+		end := piecePoss + len(msg.Data())
+		if int(msg.Offset())+len(msg.Data()) == t.PieceLength || end == t.Length {
+			if _, ok := failed[msg.Index()]; !ok {
+				t.SetDownloaded(uint(msg.Index()))
+			}
 		}
 	}
 
-- 
2.43.0


From da78f9ed933f42b9a3d9d3029b7d7028f9a7f4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:35 +0000
Subject: [PATCH 10/36] fix: do not panic on peer messages with truncated
 payload

---
 pkg/util/peer_message.go | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 4cdf1de..4750b1a 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -24,6 +24,9 @@ const (
 	// KeepaliveMessageType has only length without type.
 	// This is fake type which is never actually used.
 	KeepaliveMessageType MessageType = 99
+
+	// InvalidMessageType marks messages too short for their type.
+	InvalidMessageType MessageType = 98
 )
 
 type PeerMessage struct {
@@ -61,6 +64,9 @@ func NewPeerMessage(data []byte) *PeerMessage {
 		payload: data[1:],
 	}
 	data = msg.payload
+	if len(data) < minPayload(msg.Type) {
+		msg.Type = InvalidMessageType
+	}
 
 	// set additional message data for these message types
 	switch msg.Type {
@@ -80,6 +86,20 @@ func NewPeerMessage(data []byte) *PeerMessage {
 	return msg
 }
 
+// minPayload returns payload size needed to read fixed fields of message.
+func minPayload(t MessageType) int {
+	switch t {
+	case HaveMessageType:
+		return 4
+	case RequestMessageType, CancelMessageType:
+		return 12
+	case PieceMessageType:
+		return 8
+	default:
+		return 0
+	}
+}
+
 func (m PeerMessage) Send(w io.Writer) (int, error) {
 	// TODO: cache buffer object in a pool
 	buf := &bytes.Buffer{}
-- 
2.43.0


From 373e75bb9a0a5f34c57dcd4492cc181f7efec4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:36 +0000
Subject: [PATCH 11/36] fix: write index, offset and length of block requests
 to their own bytes

---
 pkg/util/peer_message.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/util/peer_message.go b/pkg/util/peer_message.go
index 4750b1a..a883188 100644
--- a/pkg/util/peer_message.go
+++ b/pkg/util/peer_message.go
@@ -207,8 +207,8 @@ func createHaveMessage(index uint32) *PeerMessage {
 func createCancelMessage(index, offset, blockLength uint32) *PeerMessage {
 	payload := make([]byte, 12)
 	binary.BigEndian.PutUint32(payload, index)
-	binary.BigEndian.PutUint32(payload, offset)
-	binary.BigEndian.PutUint32(payload, blockLength)
+	binary.BigEndian.PutUint32(payload[4:], offset)
+	binary.BigEndian.PutUint32(payload[8:], blockLength)
 
 	msg := &PeerMessage{
 		len:         13,
@@ -225,8 +225,8 @@ func createCancelMessage(index, offset, blockLength uint32) *PeerMessage {
 func CreatePieceMessage(index, offset, blockLength uint32) *PeerMessage {
 	payload := make([]byte, 12)
 	binary.BigEndian.PutUint32(payload, index)
-	binary.BigEndian.PutUint32(payload, offset)
-	binary.BigEndian.PutUint32(payload, blockLength)
+	binary.BigEndian.PutUint32(payload[4:], offset)
+	binary.BigEndian.PutUint32(payload[8:], blockLength)
 
 	msg := PeerMessage{
 		len:         13,
-- 
2.43.0


From 72b0a3c047c775bf4e8fa928159edd3cfbd6214b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:37 +0000
Subject: [PATCH 12/36] fix: keep partly received peer messages over read
 timeouts and bound their size

---
 pkg/gotitnet/connection.go | 41 ++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index 878d417..b70744b 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -14,6 +14,11 @@ const (
 	PeerTimeout    = time.Second * 1
 	TrackerTimeout = time.Millisecond * 500
 	DialTimeout    = time.Second * 2
+
+	// MaxMessageSize is the size of the biggest peer message we accept.
+	MaxMessageSize = 4 << 20
+
+	readChunk = 64 << 10
 )
 
 type TimeoutConn struct {
@@ -22,6 +27,9 @@ type TimeoutConn struct {
 	// Timeout used when reading or writing on
 	// this connection.
 	timeout time.Duration
+	// Received part of a peer message which is still not complete. Kept
+	// between reads so that timeout inside of message does not lose it.
+	partial []byte
 }
 
 func NewTimeoutConn(network, address string, timeout time.Duration) (*TimeoutConn, error) {
@@ -43,23 +51,34 @@ func (c *TimeoutConn) ReadPeerMessage() ([]byte, error) {
 	if err := c.setReadDeadline(); err != nil {
 		return nil, err
 	}
-	size, err := c.readPeerMessageSize()
-	if err != nil {
+	if err := c.readPartial(4); err != nil {
+		return nil, err
+	}
+	size := int(binary.BigEndian.Uint32(c.partial))
+	if size > MaxMessageSize {
+		return nil, fmt.Errorf("peer message size %d too big", size)
+	}
+	if err := c.readPartial(4 + size); err != nil {
 		return nil, err
 	}
 
-	return c.readExactly(size)
+	msg := c.partial[4:]
+	c.partial = nil
+	return msg, nil
 }
 
-// readPeerMessageSize returns next peer message size by reading first 4
-// bytes from socket.
-func (c *TimeoutConn) readPeerMessageSize() (int, error) {
-	buf, err := c.readExactly(4)
-	if err != nil {
-		return 0, err
+// readPartial reads from socket until there is size bytes of a peer message.
+func (c *TimeoutConn) readPartial(size int) error {
+	for len(c.partial) < size {
+		have := len(c.partial)
+		buf := append(c.partial, make([]byte, min(size-have, readChunk))...)
+		n, err := c.c.Read(buf[have:])
+		c.partial = buf[:have+n]
+		if err != nil && len(c.partial) < size {
+			return err
+		}
 	}
-
-	return int(binary.BigEndian.Uint32(buf)), nil
+	return nil
 }
 
 // ReadPeerHandshake reads peer handshake message from socket.
-- 
2.43.0


From c42614d9ae71f0d247e68575e643bc6e74a76309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:00 +0000
Subject: [PATCH 13/36] fix: remember that interest was declared so pieces get
 requested

---
 pkg/peer/peer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index fa27faf..89dfed1 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -386,8 +386,12 @@ func (p *Peer) SendUnchoke() error {
 }
 
 func (p *Peer) SendInterested() error {
-	_, err := p.sendMessage(util.CreateInterestedMessage())
-	return err
+	if _, err := p.sendMessage(util.CreateInterestedMessage()); err != nil {
+		return err
+	}
+
+	p.ClientStatus.Interested = true
+	return nil
 }
 
 func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
-- 
2.43.0


From a41a8bbea2433dc611ebeb00fc6efe27df48790b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:01 +0000
Subject: [PATCH 14/36] fix: request only blocks that exist, starting with the
 piece picked for the peer

---
 pkg/peer/peer.go       | 29 +++++++++++++++++++++++------
 pkg/torrent/torrent.go | 10 ++++++++++
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 89dfed1..c10ef1f 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -77,18 +77,27 @@ func isHandshakeValid(handshake, hash, peerId []byte) bool {
 
 func (p *Peer) createPieceMessage() *util.PeerMessage {
 	beginOffset := p.blockIdx * torrent.BlockLength
-	msg := util.CreatePieceMessage(uint32(p.pieceIdx), uint32(beginOffset), uint32(torrent.BlockLength))
+	length := torrent.BlockLength
+	if p.torrent != nil {
+		length = min(length, p.torrent.PieceSize(p.pieceIdx)-beginOffset)
+	}
+	msg := util.CreatePieceMessage(uint32(p.pieceIdx), uint32(beginOffset), uint32(length))
 
 	p.logger.Debug("created piece request",
 		zap.Uint("piece", p.pieceIdx),
 		zap.Uint("offset", beginOffset),
-		zap.Uint("length", torrent.BlockLength),
+		zap.Uint("length", length),
 	)
 
 	p.blockIdx++
 	return msg
 }
 
+// blockNum returns number of blocks in piece. Last block can be shorter.
+func blockNum(pieceSize uint) uint {
+	return (pieceSize + torrent.BlockLength - 1) / torrent.BlockLength
+}
+
 func newPeerStatus() *Status {
 	return &Status{true, false, true}
 }
@@ -109,7 +118,7 @@ func NewPeer(
 		lastMsgSent:  time.Now(),
 		logger:       logger.With(zap.String("ip", ip.String())),
 		blockIdx:     uint(0),
-		blockNum:     uint(t.PieceLength) / torrent.BlockLength,
+		blockNum:     blockNum(uint(t.PieceLength)),
 		piecesQueue:  piecesQueue,
 		writeCh:      writeCh,
 		piecesSource: t,
@@ -282,7 +291,7 @@ func (p *Peer) Run(ctx context.Context) {
 }
 
 func (p *Peer) nextRequestMessage() *util.PeerMessage {
-	if p.blockIdx >= p.blockNum {
+	if p.blockIdx == 0 || p.blockIdx >= p.blockNum {
 		// when finished with piece download check if we have failed
 		// piece requests
 		if req := p.piecesQueue.FailedPieceMessage(); req != nil {
@@ -295,13 +304,21 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 			return nil
 		}
 
-		p.blockIdx = 0
-		p.pieceIdx = indx
+		p.startPiece(indx)
 	}
 
 	return p.createPieceMessage()
 }
 
+// startPiece sets piece which blocks are going to be requested.
+func (p *Peer) startPiece(indx uint) {
+	p.blockIdx = 0
+	p.pieceIdx = indx
+	if p.torrent != nil {
+		p.blockNum = blockNum(p.torrent.PieceSize(indx))
+	}
+}
+
 func (p *Peer) Close() error {
 	return p.conn.Close()
 }
diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index d4a6b14..07a3fda 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -291,6 +291,16 @@ func (t *Torrent) writePieceData(data []byte, piecePoss int) error {
 	return nil
 }
 
+// PieceSize returns number of bytes in a piece. Last piece can be shorter
+// than others.
+func (t *Torrent) PieceSize(pieceIndx uint) uint {
+	if rest := t.Length - int(pieceIndx)*t.PieceLength; rest > 0 && rest < t.PieceLength {
+		return uint(rest)
+	}
+
+	return uint(t.PieceLength)
+}
+
 func (t *Torrent) BlockNum() int {
 	return t.numOfBlocks
 }
-- 
2.43.0


From b51868cbdd8a9c0b559f73d2b1d1d50ecfec4943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:21 +0000
Subject: [PATCH 15/36] fix: verify and store whole pieces, retry the ones
 peers fail to deliver

---
 pkg/peer/peer.go | 159 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 116 insertions(+), 43 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index c10ef1f..06e1a13 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"math/rand"
+	"net"
 	"net/netip"
 	"time"
 
@@ -24,6 +25,9 @@ var (
 	clientIdPrefix  = [8]byte{'-', 'G', 'O', '0', '1', '0', '0', '-'}
 )
 
+// requestTimeout is time in which peer should send requested block.
+const requestTimeout = 10 * time.Second
+
 type PiecesSource interface {
 	Next(bitset *bitset.BitSet) (uint, bool)
 }
@@ -52,6 +56,14 @@ type Peer struct {
 	pieceIdx uint
 	blockNum uint
 
+	// request is the block request peer did not respond to yet
+	request     *util.PeerMessage
+	requestTime time.Time
+	// blocks are received blocks of current piece
+	blocks []*util.PeerMessage
+	// corrupted is set when peer sends piece with wrong data
+	corrupted bool
+
 	writeCh chan<- *util.PeerMessage
 }
 
@@ -179,18 +191,14 @@ func (p *Peer) unchoke(ctx context.Context) error {
 		}
 
 		if err := p.SendInterested(); err != nil {
-			d := b.Duration()
-			p.logger.Warn("peer: failed to send interested message. retrying",
-				zap.Duration("backoff", d),
-				zap.Error(err))
-			if wait(ctx, d) != nil {
-				return ctx.Err()
-			}
-			continue
+			return err
 		}
 
 		message, err := p.conn.ReadPeerMessage()
 		if err != nil {
+			if !isTimeout(err) {
+				return err
+			}
 			d := b.Duration()
 			p.logger.Warn("peer: error reading peer message. retrying",
 				zap.Duration("backoff", d),
@@ -217,10 +225,17 @@ func wait(ctx context.Context, sleepDuration time.Duration) error {
 	}
 }
 
-// Run communicates with remote peer and downloads torrent pieces.
+func isTimeout(err error) bool {
+	var netErr net.Error
+	return errors.As(err, &netErr) && netErr.Timeout()
+}
+
+// Run communicates with remote peer and downloads torrent pieces. It returns when
+// torrent is downloaded, context is canceled or peer is of no more use.
 func (p *Peer) Run(ctx context.Context) {
-	var requestMsg *util.PeerMessage
-	sentPieceMsg := false
+	// let other peers download the piece we did not finish
+	defer p.abandonPiece()
+	b := newDefaultBackoff()
 
 	for {
 		// check if canceled
@@ -245,48 +260,44 @@ func (p *Peer) Run(ctx context.Context) {
 			}
 		}
 
-		b := newDefaultBackoff()
-		if !p.ClientStatus.Choked && p.ClientStatus.Interested && !sentPieceMsg {
-			requestMsg = p.nextRequestMessage()
-			if requestMsg == nil {
-				if err := wait(ctx, time.Second*2); err != nil {
+		if !p.ClientStatus.Choked && p.ClientStatus.Interested && p.request == nil {
+			if requestMsg := p.nextRequestMessage(); requestMsg != nil {
+				p.request = requestMsg
+				p.requestTime = time.Now()
+				// peer could have received only part of the request, so there
+				// is no way to continue with this connection
+				if _, err := p.sendMessage(requestMsg); err != nil {
+					p.logger.Warn("Error requesting piece", zap.Error(err))
 					return
 				}
-
-				continue
 			}
-
-			if _, err := p.sendMessage(requestMsg); err != nil {
-				p.piecesQueue.RequestFailed(requestMsg)
-				d := b.Duration()
-				p.logger.Warn("Error requesting piece. Retrying",
-					zap.Duration("backoff", d),
-					zap.Error(err))
-				if err := wait(ctx, d); err != nil {
-					return
-				}
-				continue
-			}
-
-			b.Reset()
-			sentPieceMsg = true
 		}
 
 		response, err := p.conn.ReadPeerMessage()
-		if err != nil {
-			if sentPieceMsg {
-				p.piecesQueue.RequestFailed(requestMsg)
-				sentPieceMsg = false
+		if err != nil && !isTimeout(err) {
+			p.logger.Debug("peer: error reading peer message", zap.Error(err))
+			return
+		}
+		if err == nil {
+			requested := p.request
+			p.handlePeerMessage(util.NewPeerMessage(response))
+			if p.corrupted {
+				return
+			}
+			if requested != nil && p.request == nil && !p.ClientStatus.Choked {
+				b.Reset()
 			}
+		}
+
+		if p.request != nil && time.Since(p.requestTime) >= requestTimeout {
+			p.abandonPiece()
 			d := b.Duration()
+			p.logger.Warn("Peer did not send requested block. Retrying",
+				zap.Duration("backoff", d))
 			if err := wait(ctx, d); err != nil {
 				return
 			}
-			continue
 		}
-		b.Reset()
-
-		p.handlePeerMessage(util.NewPeerMessage(response))
 	}
 }
 
@@ -295,6 +306,8 @@ func (p *Peer) nextRequestMessage() *util.PeerMessage {
 		// when finished with piece download check if we have failed
 		// piece requests
 		if req := p.piecesQueue.FailedPieceMessage(); req != nil {
+			p.startPiece(uint(req.Index()))
+			p.blockIdx++
 			return req
 		}
 
@@ -319,6 +332,25 @@ func (p *Peer) startPiece(indx uint) {
 	}
 }
 
+// abandonPiece leaves piece we are downloading to others.
+func (p *Peer) abandonPiece() {
+	if p.request == nil && (p.blockIdx == 0 || p.blockIdx >= p.blockNum) {
+		return
+	}
+
+	p.pieceFailed()
+}
+
+// pieceFailed forgets received blocks of current piece and queues it to be
+// downloaded again from the first block.
+func (p *Peer) pieceFailed() {
+	p.request = nil
+	p.blocks = nil
+	p.blockIdx = 0
+	p.piecesQueue.RequestFailed(p.createPieceMessage())
+	p.blockIdx = 0
+}
+
 func (p *Peer) Close() error {
 	return p.conn.Close()
 }
@@ -364,6 +396,8 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 	case util.ChokeMessageType:
 		p.logger.Debug("Peer sent choke message", zap.Int("peerId", p.Id))
 		p.ClientStatus.Choked = true
+		// requests are dropped by choking peer
+		p.abandonPiece()
 	case util.UnchokeMessageType:
 		p.logger.Debug("Peer sent unchoke message", zap.Int("peerId", p.Id))
 		p.ClientStatus.Choked = false
@@ -412,16 +446,55 @@ func (p *Peer) SendInterested() error {
 }
 
 func (p *Peer) handlePieceMessage(message *util.PeerMessage) {
-	if !p.pieceChecker.CheckPiece(message.Data(), int(message.Index())) {
+	blocks := []*util.PeerMessage{message}
+	requested := p.request != nil
+	if requested {
+		if !isResponse(message, p.request) {
+			p.logger.Debug("Discarding block that was not requested",
+				zap.Uint32("index", message.Index()),
+				zap.Uint32("offset", message.Offset()))
+			return
+		}
+
+		p.request = nil
+		p.blocks = append(p.blocks, message)
+		if p.blockIdx < p.blockNum {
+			// wait for other blocks of the piece
+			return
+		}
+		blocks = p.blocks
+		p.blocks = nil
+	} else if message.Offset() != 0 {
+		return
+	}
+
+	var data []byte
+	for _, block := range blocks {
+		data = append(data, block.Data()...)
+	}
+	if !p.pieceChecker.CheckPiece(data, int(message.Index())) {
 		p.logger.Warn("Discarding corrupted piece. Sha1 check failed.",
 			zap.Uint32("index", message.Index()))
+		if requested {
+			p.corrupted = true
+			p.pieceFailed()
+		}
 		return
 	}
 
-	p.writeCh <- message
+	for _, block := range blocks {
+		p.writeCh <- block
+	}
 	p.Bitset.Set(uint(message.Index()))
 }
 
+// isResponse checks if piece message holds exactly the requested block.
+func isResponse(message, request *util.PeerMessage) bool {
+	return message.Index() == request.Index() &&
+		message.Offset() == request.Offset() &&
+		len(message.Data()) == int(request.BlockLength())
+}
+
 func createHandshake(hash []byte) []byte {
 	buf := new(bytes.Buffer)
 
-- 
2.43.0


From f2a5c28e3e40d114bcbadfbd04e0e4f751b6e54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:22 +0000
Subject: [PATCH 16/36] fix: ignore have messages for pieces the torrent does
 not have

---
 pkg/peer/peer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 06e1a13..86894c3 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -384,6 +384,10 @@ func (p *Peer) handlePeerMessage(message *util.PeerMessage) {
 		p.Bitset = message.Bitfield()
 	case util.HaveMessageType:
 		p.logger.Debug("Peer sent have message", zap.Int("peerId", p.Id))
+		if p.torrent != nil && uint64(message.Index()) >= uint64(p.torrent.PiecesNum) {
+			p.logger.Warn("Peer has piece which is not in torrent", zap.Uint32("index", message.Index()))
+			return
+		}
 		p.Bitset.Set(uint(message.Index()))
 	case util.InterestedMessageType:
 		p.logger.Debug("Peer sent interested message", zap.Int("peerId", p.Id))
-- 
2.43.0


From 774dae3a92f55d6f4ec690b1ca8e6817d67431ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:59 +0000
Subject: [PATCH 17/36] fix: close peer connections that fail the handshake and
 allow closing unconnected peers

---
 pkg/peer/peer.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/pkg/peer/peer.go b/pkg/peer/peer.go
index 86894c3..a0ea6ed 100644
--- a/pkg/peer/peer.go
+++ b/pkg/peer/peer.go
@@ -9,6 +9,7 @@ import (
 	"math/rand"
 	"net"
 	"net/netip"
+	"sync"
 	"time"
 
 	"github.com/anivanovic/gotit/pkg/gotitnet"
@@ -40,6 +41,8 @@ type Peer struct {
 	Id           int
 	AddrPort     netip.AddrPort
 	conn         *gotitnet.TimeoutConn
+	connMu       sync.Mutex
+	closed       bool
 	Bitset       *bitset.BitSet
 	PeerStatus   *Status
 	ClientStatus *Status
@@ -141,12 +144,18 @@ func NewPeer(
 }
 
 func (p *Peer) connect() error {
-	var err error
-	p.conn, err = gotitnet.NewTimeoutConn("tcp", p.AddrPort.String(), gotitnet.PeerTimeout)
+	conn, err := gotitnet.NewTimeoutConn("tcp", p.AddrPort.String(), gotitnet.PeerTimeout)
 	if err != nil {
 		return err
 	}
 
+	p.connMu.Lock()
+	defer p.connMu.Unlock()
+	if p.closed {
+		_ = conn.Close()
+		return errors.New("peer closed")
+	}
+	p.conn = conn
 	p.lastMsgSent = time.Now()
 	return nil
 }
@@ -157,6 +166,16 @@ func (p *Peer) Announce(torrent *torrent.Torrent) error {
 		return fmt.Errorf("peer connect: %w", err)
 	}
 
+	if err := p.handshake(torrent); err != nil {
+		_ = p.conn.Close()
+		return err
+	}
+
+	p.logger.Info("announce to peer successful")
+	return nil
+}
+
+func (p *Peer) handshake(torrent *torrent.Torrent) error {
 	if _, err := p.send(createHandshake(torrent.Hash)); err != nil {
 		return fmt.Errorf("peer handshake: %w", err)
 	}
@@ -170,7 +189,6 @@ func (p *Peer) Announce(torrent *torrent.Torrent) error {
 		return errors.New("peer handshake invalid")
 	}
 
-	p.logger.Info("announce to peer successful")
 	return nil
 }
 
@@ -351,7 +369,18 @@ func (p *Peer) pieceFailed() {
 	p.blockIdx = 0
 }
 
+// Close ends communication with remote peer. Closed peer can not be used again.
 func (p *Peer) Close() error {
+	p.connMu.Lock()
+	defer p.connMu.Unlock()
+
+	if p.closed {
+		return nil
+	}
+	p.closed = true
+	if p.conn == nil {
+		return nil
+	}
 	return p.conn.Close()
 }
 
-- 
2.43.0


From 3c124ec7fb09479b7eccf23abf89080d1a379539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:00 +0000
Subject: [PATCH 18/36] fix: keep left bytes and completed percentage in their
 range

---
 pkg/stats/stats.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/stats/stats.go b/pkg/stats/stats.go
index 8a599b8..cd1bfea 100644
--- a/pkg/stats/stats.go
+++ b/pkg/stats/stats.go
@@ -14,7 +14,6 @@ type Stats struct {
 
 	download   uint64
 	upload     uint64
-	left       uint64
 	peerNum    uint64
 	trackerNum uint64
 }
@@ -25,7 +24,6 @@ func NewStats(torrentSize uint64) *Stats {
 		torrentSize: torrentSize,
 		download:    0,
 		upload:      0,
-		left:        torrentSize,
 		peerNum:     0,
 		trackerNum:  0,
 	}
@@ -33,7 +31,6 @@ func NewStats(torrentSize uint64) *Stats {
 
 func (ts *Stats) AddDownload(size uint64) {
 	atomic.AddUint64(&ts.download, size)
-	atomic.AddUint64(&ts.left, -size)
 }
 
 func (ts *Stats) AddUpload(size uint64) {
@@ -49,7 +46,11 @@ func (ts *Stats) Upload() uint64 {
 }
 
 func (ts *Stats) Left() uint64 {
-	return atomic.LoadUint64(&ts.left)
+	download := ts.Download()
+	if download >= ts.torrentSize {
+		return 0
+	}
+	return ts.torrentSize - download
 }
 
 func (ts *Stats) Speed() float64 {
@@ -86,5 +87,6 @@ func (ts *Stats) PercentCompleted() int {
 		return 0
 	}
 
-	return int(math.Round((float64(ts.Download()) / float64(ts.torrentSize)) * 100.0))
+	percent := math.Round((float64(ts.Download()) / float64(ts.torrentSize)) * 100.0)
+	return int(math.Min(percent, 100))
 }
-- 
2.43.0


From 75223cbc00b76617dd2ab063f17258bd926fc3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:15 +0000
Subject: [PATCH 19/36] fix: end finished downloads, stop cleanly and keep the
 peer pool within its limit

---
 pkg/download/manager.go | 122 +++++++++++++++++++++++++++++++---------
 1 file changed, 94 insertions(+), 28 deletions(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 2bf5576..48df698 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -27,20 +27,24 @@ type Manager struct {
 	torrent         *torrent.Torrent
 	torrentStatus   *stats.Stats
 	progressPrinter *stats.ProgressPrinter
+	closePrinter    sync.Once
 
 	poolMu   sync.Mutex
 	peerPool map[string]*peer.Peer
 
+	piecesQueue *torrent.PiecesQueue
+
 	cancelCtx context.CancelFunc
 	wg        *sync.WaitGroup
 }
 
-func NewMng(torrent *torrent.Torrent, logger *zap.Logger, peerNum, listenPort int) *Manager {
-	s := stats.NewStats(uint64(torrent.Length))
+func NewMng(t *torrent.Torrent, logger *zap.Logger, peerNum, listenPort int) *Manager {
+	s := stats.NewStats(uint64(t.Length))
 	pp := stats.NewProgressPrinter(s)
 	return &Manager{
 		logger:          logger,
-		torrent:         torrent,
+		torrent:         t,
+		piecesQueue:     torrent.NewPiecesQueue(),
 		peerPool:        make(map[string]*peer.Peer, 100),
 		peerNum:         peerNum,
 		listenPort:      listenPort,
@@ -51,37 +55,76 @@ func NewMng(torrent *torrent.Torrent, logger *zap.Logger, peerNum, listenPort in
 	}
 }
 
+// Download runs until torrent is downloaded, context is canceled or manager is
+// stopped. All downloaded pieces are written to disk when it returns.
 func (m *Manager) Download(ctx context.Context) error {
-	ctx, m.cancelCtx = context.WithCancel(ctx)
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+	if !m.setCancel(cancel) {
+		return nil
+	}
 
 	pieceCh := make(chan *util.PeerMessage, 1024)
+	written := make(chan struct{})
+	go func() {
+		m.torrent.WritePiece(pieceCh, m.torrentStatus)
+		close(written)
+	}()
 
 	m.initStatisticsPrinting(ctx)
 	m.getIps(ctx, pieceCh)
 
-	go m.torrent.WritePiece(pieceCh, m.torrentStatus)
-
-	m.waitPeers()
-	<-ctx.Done()
+	m.waitDone(ctx)
+	cancel()
+	m.closePeers()
+	m.wg.Wait()
 	close(pieceCh)
+	<-written
 	return nil // TODO: propagate errors
 }
 
+// waitDone returns when torrent is downloaded or context canceled.
+func (m *Manager) waitDone(ctx context.Context) {
+	for !m.torrent.Done() {
+		select {
+		case <-ctx.Done():
+			return
+		case <-time.After(200 * time.Millisecond):
+		}
+	}
+}
+
+// setCancel remembers function that stops download. Returns false if manager is
+// already stopped.
+func (m *Manager) setCancel(cancel context.CancelFunc) bool {
+	m.poolMu.Lock()
+	defer m.poolMu.Unlock()
+
+	m.cancelCtx = cancel
+	return m.peerPool != nil
+}
+
 // announce to all trackers from torrent file and gather
 // peers ip addresses
 func (m *Manager) getIps(ctx context.Context, pieceCh chan *util.PeerMessage) {
 	m.logger.Info("trackers", zap.Any("urls", m.torrent.Trackers))
 
 	for url := range m.torrent.Trackers {
-		go m.runTracker(ctx, url, pieceCh)
+		m.wg.Add(1)
+		go func(url string) {
+			defer m.wg.Done()
+			m.runTracker(ctx, url, pieceCh)
+		}(url)
 	}
 }
 
 func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util.PeerMessage) error {
 	tracker, err := tracker.New(url, m.logger)
 	if err != nil {
+		m.logger.Warn("could not create tracker", zap.String("url", url), zap.Error(err))
 		return err
 	}
+	defer tracker.Close()
 
 	for {
 		m.logger.Info("Sending announce to tracker", zap.String("url", url))
@@ -107,11 +150,15 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 }
 
 func (m *Manager) initPeers(ctx context.Context, ips []netip.AddrPort, pieceCh chan *util.PeerMessage) {
-	pq := torrent.NewPiecesQueue()
 	for _, ip := range ips {
-		p := peer.NewPeer(ip, m.torrent, pq, pieceCh, m.logger)
+		p := peer.NewPeer(ip, m.torrent, m.piecesQueue, pieceCh, m.logger)
 		if m.AddPeer(p) {
-			m.startPeerDownload(ctx, p)
+			m.wg.Add(1)
+			go func() {
+				defer m.wg.Done()
+				defer m.removePeer(p)
+				m.startPeerDownload(ctx, p)
+			}()
 		}
 	}
 }
@@ -121,10 +168,13 @@ func (m *Manager) announceToTracker(ctx context.Context, t gotit.Tracker) ([]net
 	err := retry.Do(
 		func() error {
 			var err error
+			// left is calculated here so the numbers add up when download
+			// goes on between reading them
+			downloaded := m.torrentStatus.Download()
 			announceData := gotit.AnnounceData{
-				Downloaded: m.torrentStatus.Download(),
+				Downloaded: downloaded,
 				Uploaded:   m.torrentStatus.Upload(),
-				Left:       m.torrentStatus.Left(),
+				Left:       uint64(max(m.torrent.Length-int(downloaded), 0)),
 				Port:       m.listenPort,
 			}
 			ips, err = t.Announce(ctx, string(m.torrent.Hash), &announceData)
@@ -167,19 +217,16 @@ func (m *Manager) startPeerDownload(ctx context.Context, peer *peer.Peer) {
 		m.logger.Error("error announcing to peer",
 			zap.Stringer("ip", peer.AddrPort),
 			zap.Error(err))
-		m.torrentStatus.RemovePeer()
 		return
 	}
 
-	m.wg.Add(1)
-	go func() {
-		peer.Run(ctx)
-		m.wg.Done()
-	}()
+	peer.Run(ctx)
 }
 
 func (m *Manager) initStatisticsPrinting(ctx context.Context) {
+	m.wg.Add(1)
 	go func() {
+		defer m.wg.Done()
 		for {
 			select {
 			case <-ctx.Done():
@@ -192,11 +239,19 @@ func (m *Manager) initStatisticsPrinting(ctx context.Context) {
 }
 
 func (m *Manager) Stop() {
-	if m.peerPool == nil {
-		return
+	m.poolMu.Lock()
+	cancel := m.cancelCtx
+	m.poolMu.Unlock()
+
+	if cancel != nil {
+		cancel()
 	}
-	m.cancelCtx()
+	m.closePeers()
+	m.closePrinter.Do(m.progressPrinter.Close)
+}
 
+// closePeers closes connections to all peers. New peers can not be added after.
+func (m *Manager) closePeers() {
 	m.poolMu.Lock()
 	defer m.poolMu.Unlock()
 
@@ -206,17 +261,17 @@ func (m *Manager) Stop() {
 		}
 	}
 	m.peerPool = nil
-	m.progressPrinter.Close()
-}
-
-func (m *Manager) waitPeers() {
-	m.wg.Wait()
 }
 
+// AddPeer adds peer to the pool. Peer is not added if it is already in the pool,
+// there is already maximum number of peers or manager is stopped.
 func (m *Manager) AddPeer(peer *peer.Peer) bool {
 	m.poolMu.Lock()
 	defer m.poolMu.Unlock()
 
+	if m.peerPool == nil || len(m.peerPool) >= m.peerNum {
+		return false
+	}
 	if m.peerPool[peer.AddrPort.String()] != nil {
 		return false
 	}
@@ -226,6 +281,17 @@ func (m *Manager) AddPeer(peer *peer.Peer) bool {
 	return true
 }
 
+// removePeer closes peer and makes place in the pool for others.
+func (m *Manager) removePeer(peer *peer.Peer) {
+	_ = peer.Close()
+
+	m.poolMu.Lock()
+	defer m.poolMu.Unlock()
+
+	delete(m.peerPool, peer.AddrPort.String())
+	m.torrentStatus.RemovePeer()
+}
+
 func (m *Manager) UpdateStatus(downloaded, uploaded uint64) {
 	m.torrentStatus.AddDownload(downloaded)
 	m.torrentStatus.AddUpload(uploaded)
-- 
2.43.0


From 643c2b62ef03469f4bd9452f782fdec899fbb552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:16 +0000
Subject: [PATCH 20/36] fix: read compact peers of http trackers and keep the
 query of their url

---
 gotit.go                    | 15 ++++++++----
 pkg/tracker/http_tracker.go | 49 ++++++++++++++++++++++++++++---------
 pkg/tracker/udp_tracker.go  |  2 +-
 3 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/gotit.go b/gotit.go
index 1e60291..60f4a66 100644
--- a/gotit.go
+++ b/gotit.go
@@ -22,11 +22,16 @@ type (
 	}
 
 	AnnounceResponse struct {
-		Failure      string         `ben:"failure reason,optional"`
-		Interval     int            `ben:"interval,optional"`
-		Peers        []AnnouncePeer `ben:"peers,optional"`
-		PeersCompact []byte         `ben:"peers,optional"`
-		PeersIpv6    []byte         `ben:"peers6,optional"`
+		Failure      string `ben:"failure reason,optional"`
+		Interval     int    `ben:"interval,optional"`
+		PeersCompact []byte `ben:"peers,optional"`
+		PeersIpv6    []byte `ben:"peers6,optional"`
+	}
+
+	// AnnouncePeersResponse is announce response with peers which are not in
+	// compact format.
+	AnnouncePeersResponse struct {
+		Peers []AnnouncePeer `ben:"peers"`
 	}
 
 	AnnouncePeer struct {
diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 0715fcb..d60db34 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -62,7 +62,15 @@ func (t *httpTracker) Close() error { return nil }
 
 func (t *httpTracker) Announce(ctx context.Context, torrentHash string, data *gotit.AnnounceData) ([]netip.AddrPort, error) {
 	q := t.buildQuery(torrentHash, data)
-	r, err := http.NewRequestWithContext(ctx, http.MethodGet, fmt.Sprintf("%s?%s", t.addr, q.Encode()), nil)
+	addr, err := url.Parse(t.addr)
+	if err != nil {
+		return nil, err
+	}
+	if addr.RawQuery != "" {
+		addr.RawQuery += "&"
+	}
+	addr.RawQuery += q.Encode()
+	r, err := http.NewRequestWithContext(ctx, http.MethodGet, addr.String(), nil)
 	if err != nil {
 		return nil, err
 	}
@@ -121,13 +129,8 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 	}
 	t.interval = time.Duration(announceResponse.Interval) * time.Second
 
-	if announceResponse.Peers != nil {
-		p := t.parseBencodePeers(announceResponse.Peers)
-		return p, nil
-	}
 	if announceResponse.PeersCompact != nil {
-		p := parseCompactPeers(announceResponse.PeersCompact)
-		return p, nil
+		return t.readPeersValue(res, announceResponse.PeersCompact)
 	}
 	if announceResponse.PeersIpv6 != nil {
 		// TODO: parse ipv6 compact response
@@ -136,9 +139,28 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 	return nil, errors.New("successful tracker response without ")
 }
 
+// readPeersValue reads peers from response in compact or in dictionary format.
+func (t *httpTracker) readPeersValue(res, compact []byte) ([]netip.AddrPort, error) {
+	response, err := bencode.Parse(res)
+	if err != nil {
+		return nil, err
+	}
+	if dict, ok := response.(*bencode.DictElement); ok {
+		if _, ok := dict.Value("peers").(bencode.StringElement); ok {
+			return parseCompactPeers(compact)
+		}
+	}
+
+	var peersResponse gotit.AnnouncePeersResponse
+	if err := bencode.Unmarshal(res, &peersResponse); err != nil {
+		return nil, err
+	}
+	return t.parseBencodePeers(peersResponse.Peers), nil
+}
+
 func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.AddrPort {
-	ips := make([]netip.AddrPort, len(peers))
-	for i, p := range peers {
+	ips := make([]netip.AddrPort, 0, len(peers))
+	for _, p := range peers {
 		t.logger.Debug("got ip", zap.String("ip", p.Ip))
 		ip, err := netip.ParseAddr(p.Ip)
 		if err != nil {
@@ -166,13 +188,16 @@ func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.Addr
 			t.logger.Warn("invalid ip address", zap.String("ip", p.Ip))
 			continue
 		}
-		ips[i] = ipAddr
+		ips = append(ips, ipAddr)
 	}
 
 	return ips
 }
 
-func parseCompactPeers(peers []byte) []netip.AddrPort {
+func parseCompactPeers(peers []byte) ([]netip.AddrPort, error) {
+	if len(peers)%6 != 0 {
+		return nil, errors.New("compact peers truncated")
+	}
 	peerCount := len(peers) / 6
 
 	byteMask, ips := 6, make([]netip.AddrPort, peerCount)
@@ -191,5 +216,5 @@ func parseCompactPeers(peers []byte) []netip.AddrPort {
 		}
 		ips[read] = addrPort
 	}
-	return ips
+	return ips, nil
 }
diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index ed84ae7..35a6802 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -178,7 +178,7 @@ func (t *udpTracker) readAnnounce(response []byte, transactionId uint32) ([]neti
 		zap.Duration("interval", t.interval),
 		zap.Uint32("leechers", leechers),
 		zap.Uint32("seeders", seeders))
-	return parseCompactPeers(response[20:]), nil
+	return parseCompactPeers(response[20:])
 }
 
 func readError(response []byte, transactionId uint32) error {
-- 
2.43.0


From c381145940954313d2c425214d5b1e96a9e955fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:17 +0000
Subject: [PATCH 21/36] fix: use the default interval when tracker does not ask
 for a usable one

---
 pkg/tracker/http_tracker.go |  5 ++---
 pkg/tracker/tracker.go      | 15 +++++++++++++++
 pkg/tracker/udp_tracker.go  |  5 ++---
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index d60db34..57d2380 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -10,7 +10,6 @@ import (
 	"net/netip"
 	"net/url"
 	"strconv"
-	"time"
 
 	"github.com/anivanovic/gotit"
 	"github.com/anivanovic/gotit/pkg/peer"
@@ -47,7 +46,7 @@ func newHttpTracker(addr string, client *http.Client, logger *zap.Logger) *httpT
 		event:     startedEvent,
 		trackerId: uuid.NewString(),
 		waitInterval: waitInterval{
-			interval: time.Minute,
+			interval: defaultInterval,
 		},
 	}
 
@@ -127,7 +126,7 @@ func (t *httpTracker) readPeers(res []byte) ([]netip.AddrPort, error) {
 	if announceResponse.Failure != "" {
 		return nil, fmt.Errorf("tracker failure: %s", announceResponse.Failure)
 	}
-	t.interval = time.Duration(announceResponse.Interval) * time.Second
+	t.setInterval(int64(announceResponse.Interval))
 
 	if announceResponse.PeersCompact != nil {
 		return t.readPeersValue(res, announceResponse.PeersCompact)
diff --git a/pkg/tracker/tracker.go b/pkg/tracker/tracker.go
index 993fa45..2f608aa 100644
--- a/pkg/tracker/tracker.go
+++ b/pkg/tracker/tracker.go
@@ -3,6 +3,7 @@ package tracker
 import (
 	"context"
 	"fmt"
+	"math"
 	"net/http"
 	"net/url"
 	"time"
@@ -12,10 +13,24 @@ import (
 	"github.com/anivanovic/gotit"
 )
 
+// defaultInterval is used when tracker does not tell how long to wait.
+const defaultInterval = time.Minute
+
 type waitInterval struct {
 	interval time.Duration
 }
 
+func (t *waitInterval) setInterval(seconds int64) {
+	switch {
+	case seconds <= 0:
+		t.interval = defaultInterval
+	case seconds > math.MaxInt64/int64(time.Second):
+		t.interval = math.MaxInt64
+	default:
+		t.interval = time.Duration(seconds) * time.Second
+	}
+}
+
 func (t waitInterval) WaitInterval(ctx context.Context) error {
 	select {
 	case <-time.After(t.interval):
diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index 35a6802..9a0cfb3 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -9,7 +9,6 @@ import (
 	"math/rand"
 	"net/netip"
 	"net/url"
-	"time"
 
 	"github.com/anivanovic/gotit"
 	"github.com/anivanovic/gotit/pkg/peer"
@@ -54,7 +53,7 @@ func newUdpTracker(url *url.URL, logger *zap.Logger) (*udpTracker, error) {
 
 	tracker := udpTracker{
 		conn:         conn,
-		waitInterval: waitInterval{time.Minute},
+		waitInterval: waitInterval{defaultInterval},
 		url:          url.String(),
 		log:          logger,
 	}
@@ -169,7 +168,7 @@ func (t *udpTracker) readAnnounce(response []byte, transactionId uint32) ([]neti
 		return nil, err
 	}
 
-	t.interval = time.Duration(binary.BigEndian.Uint32(response[8:12])) * time.Second
+	t.setInterval(int64(binary.BigEndian.Uint32(response[8:12])))
 	leechers := binary.BigEndian.Uint32(response[12:16])
 	seeders := binary.BigEndian.Uint32(response[16:20])
 
-- 
2.43.0


From 5f0e2ebf4f097502a5b07bb91795a6897322d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:45 +0000
Subject: [PATCH 22/36] fix: send complete udp announces and read their
 responses as datagrams

---
 pkg/gotitnet/connection.go | 17 ++++++++++++++++-
 pkg/tracker/udp_tracker.go | 29 ++++++++++++++++++++---------
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/pkg/gotitnet/connection.go b/pkg/gotitnet/connection.go
index b70744b..c4aa223 100644
--- a/pkg/gotitnet/connection.go
+++ b/pkg/gotitnet/connection.go
@@ -18,7 +18,8 @@ const (
 	// MaxMessageSize is the size of the biggest peer message we accept.
 	MaxMessageSize = 4 << 20
 
-	readChunk = 64 << 10
+	readChunk       = 64 << 10
+	maxDatagramSize = 64 << 10
 )
 
 type TimeoutConn struct {
@@ -122,6 +123,20 @@ func (c *TimeoutConn) ReadUdpHandshake() ([]byte, error) {
 	return c.readExactly(16)
 }
 
+// ReadDatagram reads single udp datagram from socket.
+// Read deadline is set to timeoutConn.timeout
+func (c *TimeoutConn) ReadDatagram() ([]byte, error) {
+	if err := c.setReadDeadline(); err != nil {
+		return nil, err
+	}
+	buf := make([]byte, maxDatagramSize)
+	n, err := c.c.Read(buf)
+	if err != nil {
+		return nil, err
+	}
+	return buf[:n], nil
+}
+
 func (c *TimeoutConn) Close() error {
 	return c.c.Close()
 }
diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index 9a0cfb3..edc2b65 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -22,6 +22,7 @@ const protocolId uint64 = 0x41727101980
 const (
 	connect = iota
 	announce
+	scrape
 	conError
 )
 
@@ -77,15 +78,19 @@ func (t *udpTracker) Announce(ctx context.Context, torrentHash string, data *got
 	transactionId := createTransactionId()
 	// TODO propagate download stats
 	request := createAnnounce(connId, transactionId, torrentHash, data)
-	t.conn.Write(request)
+	if _, err := t.conn.Write(request); err != nil {
+		return nil, err
+	}
 	t.log.Info("Announce sent to tracker", zap.String("ip", t.Url()))
-	response, err := t.conn.ReadAll()
+	response, err := t.conn.ReadDatagram()
 	if err != nil {
 		return nil, err
 	}
 
-	err = t.parseTrackerResponse(response, transactionId)
-	return t.ips, err
+	if err := t.parseTrackerResponse(response, announce, transactionId); err != nil {
+		return nil, err
+	}
+	return t.ips, nil
 }
 
 func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
@@ -101,19 +106,25 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	}
 	t.log.Info("Sent handshake to tracker")
 
-	response, err := t.conn.ReadUdpHandshake()
+	response, err := t.conn.ReadDatagram()
 	if err != nil {
 		return 0, err
 	}
-	if err := t.parseTrackerResponse(response, transactionId); err != nil {
+	if err := t.parseTrackerResponse(response, connect, transactionId); err != nil {
 		return 0, err
 	}
 
 	return t.connectionId, nil
 }
 
-func (t *udpTracker) parseTrackerResponse(response []byte, transactionId uint32) error {
+func (t *udpTracker) parseTrackerResponse(response []byte, action int, transactionId uint32) error {
+	if len(response) < 8 {
+		return errors.New("udp tracker response size less then 8")
+	}
 	actionCode := int(binary.BigEndian.Uint32(response[:4]))
+	if actionCode != action && actionCode != conError {
+		return fmt.Errorf("unexpected udp tracker response action code: %d", actionCode)
+	}
 	var err error
 
 	switch actionCode {
@@ -135,7 +146,7 @@ func createAnnounce(connId uint64, transactionId uint32, torrentHash string, dat
 	binary.Write(request, binary.BigEndian, connId)
 	binary.Write(request, binary.BigEndian, uint32(announce))
 	binary.Write(request, binary.BigEndian, transactionId)
-	binary.Write(request, binary.BigEndian, torrentHash)
+	binary.Write(request, binary.BigEndian, []byte(torrentHash))
 	binary.Write(request, binary.BigEndian, peer.ClientId)
 	binary.Write(request, binary.BigEndian, data.Downloaded)
 	binary.Write(request, binary.BigEndian, data.Left)
@@ -144,7 +155,7 @@ func createAnnounce(connId uint64, transactionId uint32, torrentHash string, dat
 	binary.Write(request, binary.BigEndian, uint32(0))
 	binary.Write(request, binary.BigEndian, rand.Int31())
 	binary.Write(request, binary.BigEndian, int32(-1))
-	binary.Write(request, binary.BigEndian, int32(data.Port))
+	binary.Write(request, binary.BigEndian, uint16(data.Port))
 	return request.Bytes()
 }
 
-- 
2.43.0


From 42045735ba14bfcde476a0f7f97709a29f2e8559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:47 +0000
Subject: [PATCH 23/36] fix: apply log and config options when a command runs
 and report invalid ones

---
 pkg/cmd/app.go | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/pkg/cmd/app.go b/pkg/cmd/app.go
index 72cdb93..1434e65 100644
--- a/pkg/cmd/app.go
+++ b/pkg/cmd/app.go
@@ -3,8 +3,6 @@ package cmd
 import (
 	"context"
 	"errors"
-	"fmt"
-	"os"
 	"os/signal"
 	"syscall"
 
@@ -41,11 +39,11 @@ func NewApp() *App {
 	}
 	cobra.OnInitialize()
 	cfg := AppConfig{}
-	rootCmd.PersistentFlags().StringVarP(&cfg.Log.Level, "log-level", "l", "info", "App logging level [info,debug,trace,warning,error,silent]")
+	rootCmd.PersistentFlags().StringVarP(&cfg.Log.Level, "log-level", "l", "info", "App logging level [debug,info,warn,error,silent]")
 	rootCmd.PersistentFlags().StringVar(&cfg.Log.Format, "log-format", "color", "Logging format [text,color,json]")
 	rootCmd.PersistentFlags().StringVar(&cfg.CfgPath, "config", "", "Config file location")
-	viper.BindPFlag("log.level", rootCmd.Flags().Lookup("log-level"))
-	viper.BindPFlag("log.format", rootCmd.Flags().Lookup("log-format"))
+	viper.BindPFlag("log.level", rootCmd.PersistentFlags().Lookup("log-level"))
+	viper.BindPFlag("log.format", rootCmd.PersistentFlags().Lookup("log-format"))
 
 	app := &App{
 		appCfg:  &cfg,
@@ -95,24 +93,24 @@ func initConfig(cfgPath string) error {
 func (a App) NewCmdRun(
 	fn func(ctx context.Context, appCtx AppContext, args []string) error,
 ) func(cmd *cobra.Command, args []string) {
-	ctx := context.Background()
-	ctx, stop := signal.NotifyContext(ctx, syscall.SIGTERM, syscall.SIGINT)
-
-	if err := initConfig(a.appCfg.CfgPath); err != nil {
-		fmt.Println("could not resolve configuration", err)
-		os.Exit(1)
-	}
-
-	logCfg := a.appCfg.Log
-	l, err := logger.NewCommandLine(logCfg.Level, logCfg.Format)
-	if err != nil {
-		_, _ = fmt.Fprint(os.Stderr, "")
-	}
-	appCtx := AppContext{log: l, printer: printer.NewConsole()}
+	// flags are parsed only when command is run
 	return func(_ *cobra.Command, args []string) {
+		ctx, stop := signal.NotifyContext(context.Background(), syscall.SIGTERM, syscall.SIGINT)
 		defer stop()
+
+		p := printer.NewConsole()
+		if err := initConfig(a.appCfg.CfgPath); err != nil {
+			p.Fatalf(1, "could not resolve configuration: %v\n", err)
+		}
+
+		l, err := logger.NewCommandLine(viper.GetString("log.level"), viper.GetString("log.format"))
+		if err != nil {
+			p.Fatalf(1, "could not create logger: %v\n", err)
+		}
+
+		appCtx := AppContext{log: l, printer: p}
 		if err := fn(ctx, appCtx, args); err != nil {
-			appCtx.printer.Fatal(1, "error with the app")
+			appCtx.printer.Fatalf(1, "error with the app: %v\n", err)
 		}
 	}
 }
-- 
2.43.0


From 87fd2e21e99eb3d9596586059aacf95dfaa647e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:48 +0000
Subject: [PATCH 24/36] fix: print torrent metadata in the bencode command

---
 pkg/cmd/bencode.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/cmd/bencode.go b/pkg/cmd/bencode.go
index c69a26d..0e2cf2e 100644
--- a/pkg/cmd/bencode.go
+++ b/pkg/cmd/bencode.go
@@ -39,8 +39,7 @@ func run(_ context.Context, appContext AppContext, args []string) error {
 		appContext.log.Fatal("parse torrent file", zap.Error(err))
 	}
 
-	//appContext.printer.Info("Metainfo file:", file)
-	//appContext.printer.Info(torrentMetadata)
+	appContext.printer.Info(torrentMetadata.String())
 
 	// TODO: return errors instead
 	return nil
-- 
2.43.0


From 573a2d11eaac75d806fd4c0ebd497f4cbb626311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:49 +0000
Subject: [PATCH 25/36] fix: accept the silent log level as other levels and
 always check the log format

---
 pkg/logger/logger.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/logger/logger.go b/pkg/logger/logger.go
index 10496d3..6171b53 100644
--- a/pkg/logger/logger.go
+++ b/pkg/logger/logger.go
@@ -21,7 +21,7 @@ func getZapLevel(level string) (zapcore.Level, error) {
 	case "error":
 		return zapcore.ErrorLevel, nil
 	default:
-		return 0, fmt.Errorf("unknown log level [debug,info,warn,error]: %q", level)
+		return 0, fmt.Errorf("unknown log level [debug,info,warn,error,silent]: %q", level)
 	}
 }
 
@@ -102,7 +102,11 @@ func newLogger(
 
 // NewCommandLine will return logger configured for terminal.
 func NewCommandLine(level string, format string) (*zap.Logger, error) {
-	if level == "silent" {
+	encoder, err := getZapEncoder(format)
+	if err != nil {
+		return nil, err
+	}
+	if strings.TrimSpace(strings.ToLower(level)) == "silent" {
 		return zap.NewNop(), nil
 	}
 
@@ -110,9 +114,5 @@ func NewCommandLine(level string, format string) (*zap.Logger, error) {
 	if err != nil {
 		return nil, err
 	}
-	encoder, err := getZapEncoder(format)
-	if err != nil {
-		return nil, err
-	}
 	return newLogger(zapLevel, encoder), nil
 }
-- 
2.43.0


From 51da9ce53b536515ba8a66f621f3c351318f8a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:30 +0000
Subject: [PATCH 26/36] fix: store blocks that arrive after the last block of
 their piece

---
 pkg/torrent/torrent.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 07a3fda..e19765d 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -211,9 +211,7 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 	failed := map[uint32]struct{}{}
 
 	for msg := range piecesCh {
-		if t.isDownloaded(uint(msg.Index())) {
-			continue
-		}
+		repeated := t.isDownloaded(uint(msg.Index()))
 		if msg.Offset() == 0 {
 			delete(failed, msg.Index())
 		}
@@ -227,6 +225,9 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 			failed[msg.Index()] = struct{}{}
 			continue
 		}
+		if repeated {
+			continue
+		}
 		stats.AddDownload(uint64(len(msg.Data())))
 
 		// last piece can be shorter than others
-- 
2.43.0


From 6d580029b123ea5ec965ca382d28e9b4987b8fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:44 +0000
Subject: [PATCH 27/36] fix: count the bytes of a piece once when several peers
 deliver it

---
 pkg/torrent/torrent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index e19765d..3e8d5c3 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -228,13 +228,14 @@ func (t *Torrent) WritePiece(piecesCh <-chan *util.PeerMessage, stats *stats.Sta
 		if repeated {
 			continue
 		}
-		stats.AddDownload(uint64(len(msg.Data())))
 
 		// last piece can be shorter than others
 		end := piecePoss + len(msg.Data())
 		if int(msg.Offset())+len(msg.Data()) == t.PieceLength || end == t.Length {
 			if _, ok := failed[msg.Index()]; !ok {
 				t.SetDownloaded(uint(msg.Index()))
+				// peers can deliver the same blocks, so count only whole pieces
+				stats.AddDownload(uint64(t.PieceSize(uint(msg.Index()))))
 			}
 		}
 	}
-- 
2.43.0


From 8b0e7fbb0cc515e43152b2a6c7ec82f1289935f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:18 +0000
Subject: [PATCH 28/36] fix: skip late udp tracker responses to former requests

---
 pkg/tracker/udp_tracker.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pkg/tracker/udp_tracker.go b/pkg/tracker/udp_tracker.go
index edc2b65..d6534d7 100644
--- a/pkg/tracker/udp_tracker.go
+++ b/pkg/tracker/udp_tracker.go
@@ -9,6 +9,7 @@ import (
 	"math/rand"
 	"net/netip"
 	"net/url"
+	"time"
 
 	"github.com/anivanovic/gotit"
 	"github.com/anivanovic/gotit/pkg/peer"
@@ -82,7 +83,7 @@ func (t *udpTracker) Announce(ctx context.Context, torrentHash string, data *got
 		return nil, err
 	}
 	t.log.Info("Announce sent to tracker", zap.String("ip", t.Url()))
-	response, err := t.conn.ReadDatagram()
+	response, err := t.readResponse(transactionId)
 	if err != nil {
 		return nil, err
 	}
@@ -106,7 +107,7 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	}
 	t.log.Info("Sent handshake to tracker")
 
-	response, err := t.conn.ReadDatagram()
+	response, err := t.readResponse(transactionId)
 	if err != nil {
 		return 0, err
 	}
@@ -117,6 +118,21 @@ func (t *udpTracker) handshake(ctx context.Context) (uint64, error) {
 	return t.connectionId, nil
 }
 
+// readResponse reads response to the request with transaction id. Late responses
+// to former requests are skipped.
+func (t *udpTracker) readResponse(transactionId uint32) ([]byte, error) {
+	deadline := time.Now().Add(gotitnet.TrackerTimeout)
+	for {
+		response, err := t.conn.ReadDatagram()
+		if err != nil {
+			return nil, err
+		}
+		if len(response) < 8 || checkResponseTransactionId(response, transactionId) == nil || time.Now().After(deadline) {
+			return response, nil
+		}
+	}
+}
+
 func (t *udpTracker) parseTrackerResponse(response []byte, action int, transactionId uint32) error {
 	if len(response) < 8 {
 		return errors.New("udp tracker response size less then 8")
-- 
2.43.0


From 167b84d927ac0fa983909ee42a9482808227f30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:56 +0000
Subject: [PATCH 29/36] fix: show the number of trackers in use in the progress
 of a download

---
 pkg/download/manager.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index 48df698..c02caa4 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -125,6 +125,8 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 		return err
 	}
 	defer tracker.Close()
+	m.torrentStatus.AddTracker()
+	defer m.torrentStatus.RemoveTracker()
 
 	for {
 		m.logger.Info("Sending announce to tracker", zap.String("url", url))
-- 
2.43.0


From 3de8296acab3891b6f843949fb8baa3a7d0a10cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:22 +0000
Subject: [PATCH 30/36] fix: give up on http trackers that do not respond

---
 pkg/tracker/http_tracker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 57d2380..400752e 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -10,6 +10,7 @@ import (
 	"net/netip"
 	"net/url"
 	"strconv"
+	"time"
 
 	"github.com/anivanovic/gotit"
 	"github.com/anivanovic/gotit/pkg/peer"
@@ -28,6 +29,9 @@ const (
 	completedEvent tEvent = "completed"
 )
 
+// httpTimeout is time in which tracker should respond to announce.
+const httpTimeout = 30 * time.Second
+
 type httpTracker struct {
 	c         *http.Client
 	addr      string
@@ -69,6 +73,8 @@ func (t *httpTracker) Announce(ctx context.Context, torrentHash string, data *go
 		addr.RawQuery += "&"
 	}
 	addr.RawQuery += q.Encode()
+	ctx, cancel := context.WithTimeout(ctx, httpTimeout)
+	defer cancel()
 	r, err := http.NewRequestWithContext(ctx, http.MethodGet, addr.String(), nil)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From c9748fb96a77aac535433ed2df858cc8fdd136a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:08 +0000
Subject: [PATCH 31/36] fix: refuse torrents that list the same file more than
 once

---
 pkg/torrent/torrent.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/torrent/torrent.go b/pkg/torrent/torrent.go
index 3e8d5c3..2a61fa2 100644
--- a/pkg/torrent/torrent.go
+++ b/pkg/torrent/torrent.go
@@ -169,11 +169,15 @@ func (t *Torrent) initDownloadDir(root string) error {
 	path := filepath.Join(root, t.Name)
 	var filePaths []string
 	if t.IsDirectory {
+		seen := util.NewStringSet()
 		for _, tf := range t.TorrentFiles {
 			filePath := filepath.Join(tf.Path...)
 			if !filepath.IsLocal(filePath) {
 				return fmt.Errorf("invalid torrent file path %q", tf.Path)
 			}
+			if !seen.Add(filePath) {
+				return fmt.Errorf("torrent file path %q listed more than once", tf.Path)
+			}
 			filePaths = append(filePaths, filepath.Join(path, filePath))
 		}
 	} else {
-- 
2.43.0


From 038e97e07d37ddbbc935b5f3642b637fa5742059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:32 +0000
Subject: [PATCH 32/36] fix: decode into defined byte slice and map key types
 without panic

---
 pkg/bencode/tag_parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkg/bencode/tag_parser.go b/pkg/bencode/tag_parser.go
index 63aaca3..14fe89a 100644
--- a/pkg/bencode/tag_parser.go
+++ b/pkg/bencode/tag_parser.go
@@ -127,7 +127,7 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 	case reflect.Slice:
 		// support byte array and set to raw value
 		if f.Type().Elem().Kind() == reflect.Uint8 {
-			f.Set(reflect.ValueOf(value.Raw()))
+			f.SetBytes(value.Raw())
 			return nil
 		}
 
@@ -172,6 +172,10 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 			}
 		}
 
+		if ftype.Key().Kind() != reflect.String {
+			return fmt.Errorf("unsupported bencode type %s", ftype)
+		}
+
 		m := reflect.MakeMap(ftype)
 		for k, v := range values.value {
 			mapValue := reflect.New(ftype.Elem())
@@ -181,7 +185,7 @@ func setField(f reflect.Value, value Bencode, fieldName string) error {
 			if err := setField(mapValue, v, fieldName); err != nil {
 				return err
 			}
-			m.SetMapIndex(reflect.ValueOf(k), mapValue)
+			m.SetMapIndex(reflect.ValueOf(k).Convert(ftype.Key()), mapValue)
 		}
 		f.Set(m)
 	default:
-- 
2.43.0


From f4ced132a71c11fde0e8ed1e36097029454086a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:32 +0000
Subject: [PATCH 33/36] fix: peer that could not be reached was dialled five
 times within microseconds

The delay between attempts was 500 nanoseconds.
---
 pkg/download/manager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index c02caa4..b06ce7d 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -210,7 +210,7 @@ func (m *Manager) startPeerDownload(ctx context.Context, peer *peer.Peer) {
 				zap.Error(err))
 		}),
 		retry.Attempts(5),
-		retry.Delay(500),
+		retry.Delay(500*time.Millisecond),
 		retry.DelayType(retry.BackOffDelay),
 		retry.Context(ctx),
 	)
-- 
2.43.0


From 98fa9982e7d20933aa0b98b9a5b1c2d70d04bc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:33 +0000
Subject: [PATCH 34/36] fix: http tracker response without end was read into
 memory whole

---
 pkg/tracker/http_tracker.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 400752e..091614b 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -32,6 +32,9 @@ const (
 // httpTimeout is time in which tracker should respond to announce.
 const httpTimeout = 30 * time.Second
 
+// maxHttpResponse is the size of the biggest announce response we accept.
+const maxHttpResponse = 4 << 20
+
 type httpTracker struct {
 	c         *http.Client
 	addr      string
@@ -92,10 +95,13 @@ func (t *httpTracker) Announce(ctx context.Context, torrentHash string, data *go
 		}
 	}()
 
-	body, err := io.ReadAll(res.Body)
+	body, err := io.ReadAll(io.LimitReader(res.Body, maxHttpResponse+1))
 	if err != nil {
 		return nil, err
 	}
+	if len(body) > maxHttpResponse {
+		return nil, fmt.Errorf("tracker response bigger than %d bytes", maxHttpResponse)
+	}
 
 	if res.StatusCode != 200 {
 		t.logger.Warn("Tracker response with error status code",
-- 
2.43.0


From 86cc96e27969ffdb7de0d52b27ba51c5e2277b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:47 +0000
Subject: [PATCH 35/36] fix: peer listed as IPv4-mapped IPv6 address got a
 second session

---
 pkg/tracker/http_tracker.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/tracker/http_tracker.go b/pkg/tracker/http_tracker.go
index 091614b..128f9fd 100644
--- a/pkg/tracker/http_tracker.go
+++ b/pkg/tracker/http_tracker.go
@@ -194,7 +194,7 @@ func (t *httpTracker) parseBencodePeers(peers []gotit.AnnouncePeer) []netip.Addr
 			continue
 		}
 		t.logger.Debug("parsed port", zap.Uint64("port", port))
-		ipAddr := netip.AddrPortFrom(ip, uint16(port))
+		ipAddr := netip.AddrPortFrom(ip.Unmap(), uint16(port))
 		if !ipAddr.IsValid() {
 			t.logger.Warn("invalid ip address", zap.String("ip", p.Ip))
 			continue
-- 
2.43.0


From d64aa447c03ec948307105d7363e17ca5d54de92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:51 +0000
Subject: [PATCH 36/36] fix: udp tracker whose name was not resolved at first
 was never announced to

---
 pkg/download/manager.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/pkg/download/manager.go b/pkg/download/manager.go
index b06ce7d..af98a25 100644
--- a/pkg/download/manager.go
+++ b/pkg/download/manager.go
@@ -3,6 +3,7 @@ package download
 import (
 	"context"
 	"errors"
+	"net"
 	"net/netip"
 	"sync"
 	"time"
@@ -19,6 +20,9 @@ import (
 	"go.uber.org/zap"
 )
 
+// trackerRetry is time after which we try again to connect to tracker.
+const trackerRetry = time.Minute
+
 type Manager struct {
 	logger     *zap.Logger
 	peerNum    int
@@ -119,7 +123,7 @@ func (m *Manager) getIps(ctx context.Context, pieceCh chan *util.PeerMessage) {
 }
 
 func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util.PeerMessage) error {
-	tracker, err := tracker.New(url, m.logger)
+	tracker, err := m.newTracker(ctx, url)
 	if err != nil {
 		m.logger.Warn("could not create tracker", zap.String("url", url), zap.Error(err))
 		return err
@@ -151,6 +155,25 @@ func (m *Manager) runTracker(ctx context.Context, url string, pieceCh chan *util
 	}
 }
 
+// newTracker creates tracker. When its address can not be resolved it tries
+// again later.
+func (m *Manager) newTracker(ctx context.Context, url string) (gotit.Tracker, error) {
+	for {
+		t, err := tracker.New(url, m.logger)
+		var netErr *net.OpError
+		if !errors.As(err, &netErr) {
+			return t, err
+		}
+
+		m.logger.Warn("could not connect to tracker", zap.String("url", url), zap.Error(err))
+		select {
+		case <-ctx.Done():
+			return nil, ctx.Err()
+		case <-time.After(trackerRetry):
+		}
+	}
+}
+
 func (m *Manager) initPeers(ctx context.Context, ips []netip.AddrPort, pieceCh chan *util.PeerMessage) {
 	for _, ip := range ips {
 		p := peer.NewPeer(ip, m.torrent, m.piecesQueue, pieceCh, m.logger)
-- 
2.43.0

