From 9531ee1fe324f24f11ee8f7eb4ea94dd2f482bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:51 +0000
Subject: [PATCH 01/89] fix: sarflags lookups report unknown fields and values
 instead of ending the process

A frame from the network with an unassigned field value (GetStr, Name, GetDStr,
NameD, GetTStr, NameT) or a bad flag name (Set, SetD, SetT, AddFlag, AddFlagD)
called log.Fatalln, although the functions are documented to return the
current flag and an error.
---
 sarflags/sarflags.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index ad05a5b..c2ea230 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -585,7 +585,7 @@ func AddFlag(curflag string, flag string, option string) string {
 		}
 		return newflags
 	}
-	log.Fatalln("Invalid Flag:", flag, "or option:", option)
+	log.Println("Invalid Flag:", flag, "or option:", option)
 	return curflag
 }
 
@@ -688,7 +688,7 @@ func GetStr(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("GetStr fail Invalid field", field, "in Flag", curflag)
+	log.Println("GetStr fail Invalid field", field, "in Flag", curflag)
 	return ""
 }
 
@@ -697,21 +697,21 @@ func GetStr(curflag uint32, field string) string {
 func Set(curflag uint32, field string, flagname string) (uint32, error) {
 	fl, ok := Flags[field]
 	if !ok {
-		log.Fatalln("Set lookup fail Invalid Flag", field)
+		log.Println("Set lookup fail Invalid Flag", field)
 		e := "invalid Flag: " + field
 		return curflag, errors.New(e)
 	}
 
 	if !Good(field) {
 		e := "Set - Invalid Field:" + field + ":"
-		log.Fatalln(e)
+		log.Println(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := Flags[field].Options[flagname]
 	if !ok {
 		e := "Set lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
+		log.Println(e)
 		return curflag, errors.New(e)
 	}
 
@@ -749,7 +749,7 @@ func Name(curflag uint32, field string) string {
 			return k
 		}
 	}
-	log.Fatalln("Name out of range")
+	log.Println("Name out of range")
 	return ""
 }
 
@@ -809,7 +809,7 @@ func GetDStr(curflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetDStr fail Invalid field", field, "in DFlag:", curflag)
+	log.Println("GetDStr fail Invalid field", field, "in DFlag:", curflag)
 	return ""
 }
 
@@ -818,14 +818,14 @@ func SetD(curflag uint16, field string, flagname string) (uint16, error) {
 
 	if !GoodD(field) {
 		e := "Invalid Date Field:" + field + ":"
-		log.Fatalln(e)
+		log.Println(e)
 		return curflag, errors.New(e)
 	}
 	// Get the value of the flag
 	newval, ok := DirentFlags[field].Options[flagname]
 	if !ok {
 		e := "SetD lookup fail Invalid flagname" + flagname + "in DFlag" + field
-		log.Fatalln(e)
+		log.Println(e)
 		return curflag, errors.New(e)
 	}
 
@@ -873,7 +873,7 @@ func NameD(curdflag uint16, field string) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameD out of range")
+	log.Println("NameD out of range")
 	return ""
 }
 
@@ -903,7 +903,7 @@ func AddFlagD(curflag string, flag string, option string) string {
 		}
 		return newflags
 	}
-	log.Fatalln("Invalid Directory Flag:", flag, "or option:", option)
+	log.Println("Invalid Directory Flag:", flag, "or option:", option)
 	return curflag
 }
 
@@ -954,7 +954,7 @@ func GetTStr(curflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("GetTStr fail Invalid Tflag:", curflag)
+	log.Println("GetTStr fail Invalid Tflag:", curflag)
 	return ""
 }
 
@@ -963,7 +963,7 @@ func SetT(curflag uint8, flagname string) (uint8, error) {
 
 	newval, found := TimeStamps.Options[flagname]
 	if !found {
-		log.Fatalln("SetT lookup fail Invalid flagname", flagname, "in TFlag")
+		log.Println("SetT lookup fail Invalid flagname", flagname, "in TFlag")
 		e := "invalid TFlag: " + flagname
 		return curflag, errors.New(e)
 	}
@@ -987,7 +987,7 @@ func NameT(curtflag uint8) string {
 			return ki
 		}
 	}
-	log.Fatalln("NameT out of range")
+	log.Println("NameT out of range")
 	return ""
 }
 
-- 
2.43.0


From 12df639af9ccecd5fc41045c3ce08013c14b041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:51 +0000
Subject: [PATCH 02/89] fix: CopyCliflags copies V6Multicast and Bcount

---
 sarflags/sarflags.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index c2ea230..bd5346f 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -630,7 +630,7 @@ func ReplaceFlag(flags, value, option string) string {
 func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
 	d := new(Cliflags)
 	d.V4Multicast = s.V4Multicast
-	d.V6Multicast = s.V4Multicast
+	d.V6Multicast = s.V6Multicast
 	d.Port = s.Port
 	d.Timestamp = s.Timestamp
 	d.Timezone = s.Timezone
@@ -638,6 +638,7 @@ func (s *Cliflags) CopyCliflags() (*Cliflags, error) {
 	d.Ppad = s.Ppad
 	d.Sardir = s.Sardir
 	d.Buffersize = s.Buffersize
+	d.Bcount = s.Bcount
 	// Copy the various Timeouts
 	d.Timeout.Binterval = s.Timeout.Binterval
 	d.Timeout.Metadata = s.Timeout.Metadata
-- 
2.43.0


From 14a87eba0c90b7d5bf29a5a2cce95ed8bbdbaabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:34 +0000
Subject: [PATCH 03/89] fix: flag string helpers tolerate items without a
 value; config errors name the file

FlagValue and ReplaceFlag indexed past the end of the split on "" or "flag",
ReadConfig indexed os.Args[1], which need not exist.
---
 sarflags/sarflags.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index bd5346f..8b3a051 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -335,13 +335,13 @@ func (c *Cliflags) ReadConfig(fname string) error {
 
 	var confdata []byte
 	if confdata, err = os.ReadFile(fname); err != nil {
-		fmt.Println("Cannot open the saratoga config file", os.Args[1], ":", err)
+		fmt.Println("Cannot open the saratoga config file", fname, ":", err)
 		return err
 	}
 
 	var sarconfdata map[string]interface{}
 	if err = json.Unmarshal([]byte(confdata), &sarconfdata); err != nil {
-		fmt.Println("Cannot Unmarshal json from saratoga config file", os.Args[1], ":", err)
+		fmt.Println("Cannot Unmarshal json from saratoga config file", fname, ":", err)
 		return err
 	}
 	// Lock them up while we are changing the values
@@ -597,7 +597,7 @@ func FlagValue(flags, flag string) string {
 	flagslice := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flagslice {
 		f := strings.Split(flagslice[fl], "=") // f[0]=name f[1]=val
-		if f[0] == flag {
+		if f[0] == flag && len(f) > 1 {
 			return f[1]
 		}
 	}
@@ -615,7 +615,7 @@ func ReplaceFlag(flags, value, option string) string {
 			replaced = true
 			// We are replacing this current flags value with a new one
 			newflags = AddFlag(newflags, value, option)
-		} else {
+		} else if strings.Contains(flag, "=") {
 			// Just add the current flag to the list
 			newflags = AddFlag(newflags, strings.Split(flag, "=")[0], strings.Split(flag, "=")[1])
 		}
@@ -918,7 +918,7 @@ func ReplaceFlagD(flags, value, option string) string {
 			replaced = true
 			// We are replacing this current flags value with a new one
 			newflags = AddFlagD(newflags, value, option)
-		} else {
+		} else if strings.Contains(flag, "=") {
 			// Just add the current flag to the list
 			newflags = AddFlagD(newflags, strings.Split(flag, "=")[0], strings.Split(flag, "=")[1])
 		}
-- 
2.43.0


From 4665e1bd663eecacf8363b31ab3c6c1995d39f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:34 +0000
Subject: [PATCH 04/89] fix: timestamps outside 1678-2262, short buffers and
 localinterp

UnixNano overflows outside those years, Get sliced a short buffer, and Get
refused the localinterp timestamps that New and Put produce.
---
 timestamp/timestamp.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/timestamp/timestamp.go b/timestamp/timestamp.go
index 13a8f19..22da2e8 100644
--- a/timestamp/timestamp.go
+++ b/timestamp/timestamp.go
@@ -51,19 +51,17 @@ func (t *Timestamp) New(flag string, ts time.Time) error {
 		t.nsecs = 0
 		t.local = ""
 	case "posix32_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix())
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
+		t.nsecs = uint64(ts.Nanosecond())
 		if t.secs > sarflags.MaxUint32 {
 			return errors.New("posix32_32:Seconds exceed 32 bits")
 		}
 		t.local = ""
 	case "posix64_32":
-		nsecs := ts.UnixNano()
-		t.secs = uint64(nsecs / 1e9)
+		t.secs = uint64(ts.Unix())
 		t.ttype = flag
-		t.nsecs = uint64(nsecs % 1e9)
+		t.nsecs = uint64(ts.Nanosecond())
 		if t.nsecs > sarflags.MaxUint32 {
 			return errors.New("posix64_32:Remainder exceed 32 bits")
 		}
@@ -129,8 +127,23 @@ func (t *Timestamp) Now(flag string) error {
 // Get -- Get  timestamp from buffer
 func (t *Timestamp) Get(tstamp []byte) error {
 
+	if len(tstamp) < 1 {
+		return errors.New("timestamp.Get: timestamp too short")
+	}
 	t.header = tstamp[0]
 	ttype := sarflags.GetTStr(t.header)
+	minlen := 15
+	switch ttype {
+	case "posix32", "epoch2000_32":
+		minlen = 5
+	case "posix64", "posix32_32":
+		minlen = 9
+	case "posix64_32":
+		minlen = 13
+	}
+	if len(tstamp) < minlen {
+		return errors.New("timestamp.Get: timestamp too short")
+	}
 	switch ttype {
 	case "posix32":
 		t.secs = uint64(binary.BigEndian.Uint32(tstamp[1:5]))
@@ -157,6 +170,11 @@ func (t *Timestamp) Get(tstamp []byte) error {
 		t.nsecs = 0
 		t.local = ""
 		t.ttype = ttype
+	case "localinterp":
+		t.secs = 0
+		t.nsecs = 0
+		t.local = strings.TrimRight(string(tstamp[1:15]), "\x00")
+		t.ttype = ttype
 	default:
 		t.secs = 0
 		t.nsecs = 0
-- 
2.43.0


From bfd08fcd4dcad19fee4c9d1bb41383493a8628f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:34 +0000
Subject: [PATCH 05/89] fix: data.New sets the transfer flag it accepts

---
 data/data.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/data/data.go b/data/data.go
index 8db2b11..2594254 100644
--- a/data/data.go
+++ b/data/data.go
@@ -72,6 +72,9 @@ func (d *Data) New(flags string, info interface{}) error {
 			if f[1] == "bundle" {
 				return errors.New("bundle transfers not supported")
 			}
+			if d.Header, err = sarflags.Set(d.Header, f[0], f[1]); err != nil {
+				return err
+			}
 		case "reqtstamp":
 			switch f[1] {
 			case "no":
-- 
2.43.0


From ca730c8815cfb87b91ec12b704aa099b89877884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:34 +0000
Subject: [PATCH 06/89] fix: data.Decode refuses frames too short for their
 timestamp and offset

---
 data/data.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/data/data.go b/data/data.go
index 2594254..396c2db 100644
--- a/data/data.go
+++ b/data/data.go
@@ -159,6 +159,21 @@ func (d *Data) Decode(frame []byte) error {
 	}
 	d.Header = binary.BigEndian.Uint32(frame[:4])
 	d.Session = binary.BigEndian.Uint32(frame[4:8])
+	minlen := 8 // Header + Session
+	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
+		minlen += 16 // Timestamp
+	}
+	switch sarflags.GetStr(d.Header, "descriptor") { // Offset
+	case "d16":
+		minlen += 2
+	case "d32":
+		minlen += 4
+	case "d64":
+		minlen += 8
+	}
+	if len(frame) < minlen {
+		return errors.New("data.Get - data frame too short")
+	}
 	if sarflags.GetStr(d.Header, "reqtstamp") == "yes" {
 		if err := d.Tstamp.Get(frame[8:24]); err != nil {
 			return err
-- 
2.43.0


From 00fe8d11ef9d822b03b41095204d1b48c4f5c841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:34 +0000
Subject: [PATCH 07/89] fix: data.Encode refuses an offset its descriptor
 cannot hold

---
 data/data.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/data/data.go b/data/data.go
index 396c2db..9106c64 100644
--- a/data/data.go
+++ b/data/data.go
@@ -266,9 +266,15 @@ func (d *Data) Encode() ([]byte, error) {
 	}
 	switch sarflags.GetStr(d.Header, "descriptor") {
 	case "d16":
+		if d.Offset > sarflags.MaxUint16 {
+			return nil, errors.New("data offset exceeds d16 descriptor")
+		}
 		binary.BigEndian.PutUint16(frame[pos:pos+2], uint16(d.Offset))
 		pos += 2
 	case "d32":
+		if d.Offset > sarflags.MaxUint32 {
+			return nil, errors.New("data offset exceeds d32 descriptor")
+		}
 		binary.BigEndian.PutUint32(frame[pos:pos+4], uint32(d.Offset))
 		pos += 4
 	case "d64":
-- 
2.43.0


From c7868098177e40127ec5095944815aabbde730a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:14 +0000
Subject: [PATCH 08/89] fix: status.Encode writes the timestamp it reserves
 space for

---
 status/status.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/status/status.go b/status/status.go
index 092f335..dd777a1 100644
--- a/status/status.go
+++ b/status/status.go
@@ -154,6 +154,7 @@ func (s Status) Encode() ([]byte, error) {
 
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		framelen += 16 // Timestamp
+		havetstamp = true
 	}
 
 	var dsize int
-- 
2.43.0


From 488579cdf810b638f1e67a4db72edbb347bd1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:14 +0000
Subject: [PATCH 09/89] fix: status frames carry only their own holes when the
 struct is reused

---
 status/status.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/status/status.go b/status/status.go
index dd777a1..82aa927 100644
--- a/status/status.go
+++ b/status/status.go
@@ -106,6 +106,7 @@ func (s *Status) New(flags string, info interface{}) error {
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
 	s.Inrespto = e.FieldByName("Inrespto").Uint()
+	s.Holes = nil
 	for i := 0; i < e.FieldByName("Holes").Len(); i++ {
 		var h holes.Hole
 		// Get the Start and End from within the Holes Structure
@@ -134,6 +135,7 @@ func (s *Status) Make(header uint32, info interface{}) error {
 	s.Session = uint32(e.FieldByName("Session").Uint())
 	s.Progress = e.FieldByName("Progress").Uint()
 	s.Inrespto = e.FieldByName("Inrespto").Uint()
+	s.Holes = nil
 	for i := 0; i < e.FieldByName("Holes").Len(); i++ {
 		var h holes.Hole
 		// Get the Start and End from within the Holes Structure
@@ -243,6 +245,7 @@ func (s *Status) Decode(frame []byte) error {
 	}
 	s.Header = binary.BigEndian.Uint32(frame[:4])
 	s.Session = binary.BigEndian.Uint32(frame[4:8])
+	s.Holes = nil // Only the holes in this frame
 	pos := 8
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		var err error
-- 
2.43.0


From 57ecb41031dced17350fc3fb47dfc896b837c25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:14 +0000
Subject: [PATCH 10/89] fix: status.Decode refuses frames too short for their
 timestamp, progress and inrespto

---
 status/status.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/status/status.go b/status/status.go
index 82aa927..81a617b 100644
--- a/status/status.go
+++ b/status/status.go
@@ -250,6 +250,9 @@ func (s *Status) Decode(frame []byte) error {
 	if sarflags.GetStr(s.Header, "reqtstamp") == "yes" {
 		var err error
 
+		if len(frame) < 24 {
+			return errors.New("status frame too short")
+		}
 		if err = s.Tstamp.Get(frame[pos:24]); err != nil {
 			return err
 		}
@@ -261,6 +264,9 @@ func (s *Status) Decode(frame []byte) error {
 	switch sarflags.GetStr(s.Header, "descriptor") {
 	case "d16":
 		dsize = 2
+		if len(frame[pos:]) < 2*dsize {
+			return errors.New("status frame too short")
+		}
 		s.Progress = uint64(binary.BigEndian.Uint16(frame[pos : pos+dsize]))
 		pos += dsize
 		s.Inrespto = uint64(binary.BigEndian.Uint16(frame[pos : pos+dsize]))
@@ -276,6 +282,9 @@ func (s *Status) Decode(frame []byte) error {
 		}
 	case "d32":
 		dsize = 4
+		if len(frame[pos:]) < 2*dsize {
+			return errors.New("status frame too short")
+		}
 		s.Progress = uint64(binary.BigEndian.Uint32(frame[pos : pos+dsize]))
 		pos += dsize
 		s.Inrespto = uint64(binary.BigEndian.Uint32(frame[pos : pos+dsize]))
@@ -290,6 +299,9 @@ func (s *Status) Decode(frame []byte) error {
 		}
 	case "d64":
 		dsize = 8
+		if len(frame[pos:]) < 2*dsize {
+			return errors.New("status frame too short")
+		}
 		s.Progress = uint64(binary.BigEndian.Uint64(frame[pos : pos+dsize]))
 		pos += dsize
 		s.Inrespto = uint64(binary.BigEndian.Uint64(frame[pos : pos+dsize]))
-- 
2.43.0


From 026475f548520dbbb1d5b0e353133c283df54c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:14 +0000
Subject: [PATCH 11/89] fix: status.Encode refuses progress, inrespto or holes
 its descriptor cannot hold

---
 status/status.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/status/status.go b/status/status.go
index 81a617b..81b240d 100644
--- a/status/status.go
+++ b/status/status.go
@@ -160,20 +160,32 @@ func (s Status) Encode() ([]byte, error) {
 	}
 
 	var dsize int
+	var dmax uint64 // Largest value the descriptor holds
 
 	switch sarflags.GetStr(s.Header, "descriptor") { // Offset
 	case "d16":
 		dsize = 2
+		dmax = sarflags.MaxUint16
 	case "d32":
 		dsize = 4
+		dmax = sarflags.MaxUint32
 	case "d64":
 		dsize = 8
+		dmax = sarflags.MaxUint64
 	case "d128":
 		return nil, errors.New("d128 not supported in status")
 		// dsize = 16
 	default:
 		return nil, errors.New("invalid descriptor in status")
 	}
+	if s.Progress > dmax || s.Inrespto > dmax {
+		return nil, errors.New("status progress or inrespto exceeds descriptor")
+	}
+	for i := range s.Holes {
+		if uint64(s.Holes[i].Start) > dmax || uint64(s.Holes[i].End) > dmax {
+			return nil, errors.New("status hole exceeds descriptor")
+		}
+	}
 	framelen += (dsize*2 + (dsize * len(s.Holes) * 2)) // progress + inrespto + holes
 	frame := make([]byte, framelen)
 
-- 
2.43.0


From bb585e60db8c76de96a067963aef7df51b39ebac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:14 +0000
Subject: [PATCH 12/89] fix: status.New accepts the epoch2000_32 timestamp type

---
 status/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/status/status.go b/status/status.go
index 81b240d..9ddb1a7 100644
--- a/status/status.go
+++ b/status/status.go
@@ -91,7 +91,7 @@ func (s *Status) New(flags string, info interface{}) error {
 			}
 		// If we have not requested a timestamp (reqtstamp=no) but we have set the type to one of below then
 		// get the time and date and set (reqtstamp=yes)
-		case "localinterp", "posix32", "posix64", "posix32_32", "posix64_32":
+		case "localinterp", "posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32":
 			if err = s.Tstamp.Now(f[0]); err != nil {
 				return err
 			}
-- 
2.43.0


From 85601d8d1992c7f90b8d0cb8146c20b8111fa8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:42 +0000
Subject: [PATCH 13/89] fix: request.Decode keeps the bytes of the file name
 and needs its NUL

Bytes over 0x7f became two bytes each, which also moved the auth field, a
reused struct kept the previous name as a prefix, and a name without its NUL
panicked.
---
 request/request.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/request/request.go b/request/request.go
index 93f9536..8246462 100644
--- a/request/request.go
+++ b/request/request.go
@@ -3,6 +3,7 @@
 package request
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -126,14 +127,12 @@ func (r *Request) Decode(frame []byte) error {
 	}
 	r.Header = binary.BigEndian.Uint32(frame[:4])
 	r.Session = binary.BigEndian.Uint32(frame[4:8])
-	pos := 8
-	for i := range frame[8:] { // Filename in frame is null terminated string
-		if frame[pos+i] == '\x00' { // Hit null
-			break
-		}
-		r.Fname += string(frame[pos+i])
+	end := bytes.IndexByte(frame[8:], '\x00') // Filename in frame is null terminated string
+	if end < 0 {
+		return errors.New("request.Decode - filename not null terminated")
 	}
-	pos = 8 + 1 + len(r.Fname)
+	r.Fname = string(frame[8 : 8+end])
+	pos := 8 + 1 + len(r.Fname)
 	if pos == len(frame) { // No following auth field
 		r.Auth = nil
 		return nil
-- 
2.43.0


From 141171dbfdc6af25516f83904a94719f992b2c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:42 +0000
Subject: [PATCH 14/89] fix: request.New and Make keep the auth field, Make
 does not panic

---
 request/request.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/request/request.go b/request/request.go
index 8246462..1ffb012 100644
--- a/request/request.go
+++ b/request/request.go
@@ -72,7 +72,7 @@ func (r *Request) New(flags string, info interface{}) error {
 	e := reflect.ValueOf(info).Elem()
 	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
@@ -94,9 +94,9 @@ func (r *Request) Make(header uint32, info interface{}) error {
 	r.Header = header
 
 	e := reflect.ValueOf(info).Elem()
-	r.Session = uint32(e.Elem().FieldByName("Session").Uint())
+	r.Session = uint32(e.FieldByName("Session").Uint())
 	r.Fname = e.FieldByName("Fname").String()
-	copy(r.Auth, e.FieldByName("Auth").Bytes())
+	r.Auth = append([]byte(nil), e.FieldByName("Auth").Bytes()...)
 
 	return nil
 }
-- 
2.43.0


From e2dbffb05b97738d20a9710b35086d192b97cca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:42 +0000
Subject: [PATCH 15/89] fix: dirent.Decode keeps the bytes of the path

---
 dirent/dirent.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 202aa6b..e63b993 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -3,6 +3,7 @@
 package dirent
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
 	"fmt"
@@ -237,13 +238,11 @@ func (d *DirEnt) Decode(frame []byte) error {
 	pos += 4
 	// fmt.Printf("Ctime:%s\n", d.ctime.Print())
 
-	d.Path = ""
-	for i := range frame[pos:] { // Path is null terminated string
-		if frame[pos+i] == '\x00' { // Hit null
-			break
-		}
-		d.Path += string(frame[pos+i])
+	path := frame[pos:] // Path is null terminated string
+	if end := bytes.IndexByte(path, '\x00'); end >= 0 {
+		path = path[:end]
 	}
+	d.Path = string(path)
 	// fmt.Printf("Path:<%s>\n", d.path)
 	return nil
 }
-- 
2.43.0


From 7bd96010b550b03c276c44102b2bfb2eb71f44c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:42 +0000
Subject: [PATCH 16/89] fix: dirent.Decode refuses entries too short for their
 size and times

---
 dirent/dirent.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index e63b993..5acd8af 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -203,6 +203,18 @@ func (d *DirEnt) Decode(frame []byte) error {
 	d.Header = binary.BigEndian.Uint16(frame[:2])
 
 	pos := 2
+	minlen := 2 + 4 + 4 // Header + Mtime + Ctime
+	switch sarflags.GetDStr(d.Header, "descriptor") {
+	case "d16":
+		minlen += 2
+	case "d32":
+		minlen += 4
+	case "d64":
+		minlen += 8
+	}
+	if len(frame) < minlen {
+		return errors.New("DirEntGet - Entry too short")
+	}
 	switch sarflags.GetDStr(d.Header, "descriptor") {
 	case "d16":
 		dsize := 2
-- 
2.43.0


From 6460a473a755715bbe04be30aac9fec15a310611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:42 +0000
Subject: [PATCH 17/89] fix: dirent.Encode accepts d64 sizes over 4 GiB

---
 dirent/dirent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dirent/dirent.go b/dirent/dirent.go
index 5acd8af..1bfbff3 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -173,7 +173,7 @@ func (d *DirEnt) Encode() ([]byte, error) {
 		}
 		binary.BigEndian.PutUint32(frame[pos:pos+dsize], uint32(d.Size))
 	case 8:
-		if d.Size > sarflags.MaxUint32 { // This should never happen!!!!
+		if d.Size > sarflags.MaxUint64 { // This should never happen!!!!
 			e := fmt.Sprintf("Descriptor d64 too small for file size %d", d.Size)
 			return nil, errors.New(e)
 		}
-- 
2.43.0


From 4bee49546e36e12362cb258c8d882b889d11cb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 18/89] fix: file names in requests cannot leave the saratoga
 directory

---
 fileio/fileio.go | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index a81ce17..e4651af 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -4,6 +4,8 @@ package fileio
 import (
 	"fmt"
 	"os"
+	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/charlesetsmith/saratoga/sarflags"
@@ -15,10 +17,22 @@ func Sardir() string {
 	return sarflags.Cliflag.Sardir
 }
 
+// fullpath - Where a file name is on our local system
+// Names come from remote peers so refuse those that lead out of the Saratoga directory
+func fullpath(fname string) (string, error) {
+	if !filepath.IsLocal(strings.TrimLeft(fname, "/")) {
+		return "", fmt.Errorf("file name outside of saratoga directory: %s", fname)
+	}
+	return Sardir() + "/" + fname, nil
+}
+
 // Check to see if a file or directory exists on our local system
 // no named pipes or symbolic links supported at this time
 func FileExists(fname string) bool {
-	fullname := Sardir() + "/" + fname
+	fullname, err := fullpath(fname)
+	if err != nil {
+		return false
+	}
 	fileinfo, err := os.Stat(fullname)
 	if err == nil && (fileinfo.Mode().IsDir() || fileinfo.Mode().IsRegular()) {
 		return true
@@ -30,7 +44,10 @@ func FileExists(fname string) bool {
 func FileOpen(fname string, ttype string) (*os.File, error) {
 	var err error
 	var fp *os.File
-	fullname := Sardir() + "/" + fname
+	var fullname string
+	if fullname, err = fullpath(fname); err != nil {
+		return nil, err
+	}
 	switch ttype {
 	case "get", "take": // We are getting a remote file
 		// Open up to write to a local file
@@ -138,7 +155,10 @@ func FileClose(fp *os.File) error {
 
 // Just Zap the file
 func FileRm(fname string) error {
-	fullname := Sardir() + "/" + fname
+	fullname, err := fullpath(fname)
+	if err != nil {
+		return err
+	}
 	return os.Remove(fullname)
 }
 
@@ -176,7 +196,10 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 
 	var err error
 	var info os.FileInfo
-	fullname := Sardir() + "/" + filePath
+	var fullname string
+	if fullname, err = fullpath(filePath); err != nil {
+		return nil, err
+	}
 	if info, err = os.Lstat(fullname); os.IsNotExist(err) {
 		return nil, err
 	}
-- 
2.43.0


From 4e7c37e5c3f04116f2288906eb286f6eb8839e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 19/89] fix: FileOpen looks for the file it opens

It looked for Sardir/Sardir/fname, so put and give never found a file, and get
and take overwrote one that exists.
---
 fileio/fileio.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index e4651af..4109183 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -52,7 +52,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 	case "get", "take": // We are getting a remote file
 		// Open up to write to a local file
 		// Dont stomp on any existing file
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("file already exists:  %s", fullname)
 		}
 		// Create the file
@@ -61,7 +61,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 		}
 		return nil, err
 	case "getdir": // We are getting all the files from a remote directory
-		if FileExists(fullname) {
+		if FileExists(fname) {
 			return nil, fmt.Errorf("directory already exists: %s", fullname)
 		}
 		// Create the Directory
@@ -76,7 +76,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 		return nil, err
 	case "put", "give": // We are putting a local file to a remote system
 		// Open up to read from the local file
-		if !FileExists(fullname) {
+		if !FileExists(fname) {
 			return nil, fmt.Errorf("file does not exist: %s", fullname)
 		}
 		if fp, err = os.Open(fullname); err == nil {
-- 
2.43.0


From 1f5d5741e2eb87350f2e713dc1247f90ff1d8229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 20/89] fix: FileOpen cannot overwrite a file created after its
 check

Two gets of the same name that raced both truncated the file, and a dangling
symbolic link or named pipe passed the check.
---
 fileio/fileio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 4109183..243eca8 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -56,7 +56,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 			return nil, fmt.Errorf("file already exists:  %s", fullname)
 		}
 		// Create the file
-		if fp, err = os.Create(fullname); err == nil {
+		if fp, err = os.OpenFile(fullname, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0666); err == nil {
 			return fp, nil
 		}
 		return nil, err
-- 
2.43.0


From 0e46622566fbfd2c659ffc6c9fc6235ddc15c7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 21/89] fix: FileDelete removes the file it closed

---
 fileio/fileio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 243eca8..190df1c 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -168,7 +168,7 @@ func FileDelete(fp *os.File) error {
 	if fp != nil {
 		fname := fp.Name()
 		FileClose(fp)
-		return FileRm(fname)
+		return os.Remove(fname) // The full name, it includes the Saratoga directory
 	}
 	return fmt.Errorf("no existing open file to delete")
 }
-- 
2.43.0


From 53c5a9816f1e25c84e050d5683740d9a012afd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 22/89] fix: FileMeta does not dereference a failed Lstat

Any error but not-exist (a file used as a directory, a name too long) and
dangling or relative symbolic links panicked.
---
 fileio/fileio.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 190df1c..1d3b604 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -200,7 +200,7 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 	if fullname, err = fullpath(filePath); err != nil {
 		return nil, err
 	}
-	if info, err = os.Lstat(fullname); os.IsNotExist(err) {
+	if info, err = os.Lstat(fullname); err != nil {
 		return nil, err
 	}
 	// Symbolic Links and Named Pipes are treated as "special files"
@@ -211,9 +211,10 @@ func FileMeta(filePath string) (*FileMetaData, error) {
 		if fs.Origin, patherr = os.Readlink(fullname); patherr != nil {
 			return nil, patherr
 		}
-		origstat, _ := os.Lstat(fs.Origin)
 		// Yes we can be a symbolic link to a directory so both are true
-		fs.IsDir = origstat.IsDir()
+		if origstat, staterr := os.Stat(fullname); staterr == nil {
+			fs.IsDir = origstat.IsDir()
+		}
 	} else {
 		fs.IsDir = info.IsDir()
 	}
-- 
2.43.0


From 83f2257f60ab500701941185de3ee1e9fda20bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 23/89] fix: metadata describes the file in the saratoga
 directory

The type and descriptor came from the name taken relative to the working
directory, the size, times and checksum from the saratoga directory.
---
 metadata/metadata.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index a350420..0e8b222 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -50,11 +50,11 @@ func statfile(fname string, header uint32) (string, error) {
 	var direntflags string
 	var err error
 
-	fi, err := os.Lstat(fname)
+	fi, err := fileio.FileMeta(fname)
 	if err != nil {
 		return "", err
 	}
-	switch mode := fi.Mode(); {
+	switch mode := fi.Mode; {
 	case mode.IsRegular():
 		file = true
 		direntflags = sarflags.AddFlagD(direntflags, "property", "normalfile")
@@ -70,7 +70,7 @@ func statfile(fname string, header uint32) (string, error) {
 	}
 
 	// Work out the descriptor to use for directory entry
-	fsize := uint64(fi.Size()) // Size of file carefull this is on 64 bit int (not uint!!!)
+	fsize := uint64(fi.Size) // Size of file carefull this is on 64 bit int (not uint!!!)
 	if fsize < sarflags.MaxUint16 {
 		direntflags = sarflags.AddFlagD(direntflags, "descriptor", "d16")
 	} else if fsize < sarflags.MaxUint32 {
-- 
2.43.0


From 74186c5d32e2fe30740d3994afe25f316a200908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 24/89] fix: metadata carries the modification time of the file

---
 metadata/metadata.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 0e8b222..13ad6bb 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -164,7 +164,7 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Checksum calculation
@@ -217,7 +217,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	m.Dir.Header = d.Header
 	m.Dir.Size = d.Size
 	m.Dir.Ctime = d.Ctime
-	m.Dir.Mtime = d.Ctime
+	m.Dir.Mtime = d.Mtime
 	m.Dir.Path = d.Path
 
 	// Make sure we dont try and calc a checksum of a named pipe "stream" (it will wait forever)
-- 
2.43.0


From 347bfbbd2ff05db3111ca78cbcc42464667689d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 25/89] fix: metadata.Make uses the file name and sets the
 checksum length

---
 metadata/metadata.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 13ad6bb..738ae14 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -198,12 +198,16 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 	if header, err = sarflags.Set(header, "frametype", "metadata"); err != nil {
 		return err
 	}
+	// Set the correct csum length
+	if header, err = sarflags.Set(header, "csumlen", sarflags.GetStr(header, "csumtype")); err != nil {
+		return err
+	}
 	m.Header = header
 
 	var fname string
 	e := reflect.ValueOf(info).Elem()
 	m.Session = uint32(e.FieldByName("Session").Uint())
-	fname = e.FieldByName("Session").String()
+	fname = e.FieldByName("Fname").String()
 	var direntflags string
 	if direntflags, err = statfile(fname, m.Header); err != nil {
 		return err
-- 
2.43.0


From fe828c905aed3882b251a2862f7eeb4b289cf9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 26/89] fix: metadata.Encode reports a directory entry it
 cannot encode, Decode a short checksum

---
 metadata/metadata.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 738ae14..3218157 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -248,7 +248,10 @@ func (m *MetaData) Encode() ([]byte, error) {
 	// Create the frame slice
 	framelen := 4 + 4 // Header + Session
 	framelen += len(m.Checksum)
-	de, _ := m.Dir.Encode()
+	de, err := m.Dir.Encode()
+	if err != nil {
+		return nil, err
+	}
 	framelen += len(de)
 
 	frame := make([]byte, framelen)
@@ -281,6 +284,9 @@ func (m *MetaData) Decode(frame []byte) (err error) {
 
 	// Checksum
 	csuml := int(sarflags.Get(m.Header, "csumlen")) * 4
+	if len(frame) < pos+csuml {
+		return errors.New("MetaDataGet - Frame too short")
+	}
 	m.Checksum = make([]byte, csuml)
 	copy(m.Checksum, frame[pos:pos+csuml])
 	pos += csuml
-- 
2.43.0


From 6dd66ef17c640e4cfcf83d0bdd4b65bfd094433d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 27/89] fix: beacon.Decode refuses frames too short for their
 header and freespace

---
 beacon/beacon.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index edca92d..498d4a6 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -247,16 +247,28 @@ func (b Beacon) Encode() ([]byte, error) {
 // Get -- Decode Beacon byte slice frame into Beacon struct
 func (b *Beacon) Decode(frame []byte) error {
 
+	if len(frame) < 4 {
+		return errors.New("beacon frame too short")
+	}
 	b.Header = binary.BigEndian.Uint32(frame[:4])
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
+			if len(frame) < 6 {
+				return errors.New("beacon frame too short")
+			}
 			b.Freespace = uint64(binary.BigEndian.Uint16(frame[4:6]))
 			b.Eid = string(frame[6:])
 		case "d32":
+			if len(frame) < 8 {
+				return errors.New("beacon frame too short")
+			}
 			b.Freespace = uint64(binary.BigEndian.Uint32(frame[4:8]))
 			b.Eid = string(frame[8:])
 		case "d64":
+			if len(frame) < 12 {
+				return errors.New("beacon frame too short")
+			}
 			b.Freespace = binary.BigEndian.Uint64(frame[4:12])
 			b.Eid = string(frame[12:])
 		case "d128":
-- 
2.43.0


From 9b07619f0156e9b1b7f67baa22c1b7bd2075bb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 28/89] fix: beacon.Encode refuses a freespace its descriptor
 cannot hold

---
 beacon/beacon.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 498d4a6..a0d5233 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -225,9 +225,15 @@ func (b Beacon) Encode() ([]byte, error) {
 	if sarflags.GetStr(b.Header, "freespace") == "yes" {
 		switch sarflags.GetStr(b.Header, "freespaced") {
 		case "d16":
+			if b.Freespace > sarflags.MaxUint16 {
+				return nil, errors.New("beacon freespace exceeds d16 descriptor")
+			}
 			binary.BigEndian.PutUint16(frame[pos:6], uint16(b.Freespace))
 			pos += 2
 		case "d32":
+			if b.Freespace > sarflags.MaxUint32 {
+				return nil, errors.New("beacon freespace exceeds d32 descriptor")
+			}
 			binary.BigEndian.PutUint32(frame[pos:8], uint32(b.Freespace))
 			pos += 4
 		case "d64":
-- 
2.43.0


From 14a2be26a6d1a5d38a597ec499f737dde3677909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:50 +0000
Subject: [PATCH 29/89] fix: NewPeer holds its lock while it looks for the peer

Concurrent beacons raced on Peers, and two first beacons of one address added
it twice.
---
 beacon/beacon.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index a0d5233..9392721 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -363,11 +363,13 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	if from == nil {
 		return false
 	}
+	// One update at a time, the same peer may beacon on both v4 and v6 listeners
+	pmu.Lock()
+	defer pmu.Unlock()
+
 	// Scan through existing Peers and change if the peer exists
 	for p := range Peers {
 		if Peers[p].Addr == from.IP.String() { // Source Ip Address matches existing Peer
-			pmu.Lock()
-			defer pmu.Unlock()
 			// Has anything changed since the last beacon for this peer ?
 			if Peers[p].Freespace != b.Freespace ||
 				Peers[p].Eid != b.Eid ||
@@ -396,8 +398,6 @@ func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	newp.Cantx = sarflags.GetStr(b.Header, "txwilling")
 	newp.Created.Now("posix32_32")
 	newp.Updated = newp.Created
-	pmu.Lock()
-	defer pmu.Unlock()
 	Peers = append(Peers, *newp)
 	return true
 }
-- 
2.43.0


From ab6eefa73262dd79b72ae606f354f2068312dccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:17 +0000
Subject: [PATCH 30/89] fix: define the fileordir flag that request frames list

frameflags.request and request.New name it, but flags had no such entry, so
no request could be built with it or printed.
---
 saratoga/saratoga.json | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/saratoga/saratoga.json b/saratoga/saratoga.json
index 9e8fc3f..a9fb231 100644
--- a/saratoga/saratoga.json
+++ b/saratoga/saratoga.json
@@ -216,6 +216,15 @@
 				"yes": 1
 			}
 		},
+		"fileordir" : {
+			"frametypes" : [ "request" ],
+			"len" : 1,
+			"msb" : 10,
+			"options" : {
+				"file": 0,
+				"directory": 1
+			}
+		},
 		"transfer" : {
 			"frametypes" :  [ "metadata", "data" ],
 			"len"  : 2,
-- 
2.43.0


From 7bd95247b6f30ab8beb36c74498af7a80f30a1d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 31/89] fix: AddRxTran reads the request type from the reqtype
 flag

---
 trans/trans.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index ebb2117..9a46c19 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -48,7 +48,7 @@ var Transfers = []Transfer{}
 // Create the transfer associated with the received request
 // Send status frame back via the tx channel upon failure or success
 func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan interface{}) bool {
-	ttype := sarflags.GetStr(r.Header, "request")
+	ttype := sarflags.GetStr(r.Header, "reqtype")
 
 	// If a bad version received then send back a Status errcode to the initiator
 	var st status.Status
-- 
2.43.0


From 30c70ae615decd44842dfdb83c0c91c544682211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 32/89] fix: responder transfers use the epoch2000_32 timestamp
 type

---
 trans/trans.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index 9a46c19..5ac2640 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -203,7 +203,7 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 		tx <- st.Val(from)
 		return false
 	}
-	timetype := "epoch_2000_32"
+	timetype := "epoch2000_32"
 	ts := new(timestamp.Timestamp)
 	ts.Now(timetype)
 	dent := new(dirent.DirEnt)
-- 
2.43.0


From 889f2c1ee2387b87d4b88e31ea744adaa4b30685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:26 +0000
Subject: [PATCH 33/89] fix: replies to a request carry its session

---
 trans/trans.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trans/trans.go b/trans/trans.go
index 5ac2640..3c253df 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -52,7 +52,7 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 
 	// If a bad version received then send back a Status errcode to the initiator
 	var st status.Status
-	sinfo := status.Sinfo{Session: 0, Progress: 0, Inrespto: 0, Holes: nil}
+	sinfo := status.Sinfo{Session: r.Session, Progress: 0, Inrespto: 0, Holes: nil}
 
 	if sarflags.GetStr(r.Header, "version") != "v1" {
 		if st.New("errcode=badrequest", &sinfo) != nil {
-- 
2.43.0


From bccc48bc00d9c517781b3b1634a4b28c253e22b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:27 +0000
Subject: [PATCH 34/89] fix: a repeated request does not start a second
 transfer

---
 trans/trans.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/trans/trans.go b/trans/trans.go
index 3c253df..425149c 100644
--- a/trans/trans.go
+++ b/trans/trans.go
@@ -208,8 +208,6 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 	ts.Now(timetype)
 	dent := new(dirent.DirEnt)
 
-	// Do some error checking to see that the transfer is not already underway
-
 	// Initialise the Transfer with the information we have in the request
 	t := Transfer{Peer: *from, Session: r.Session, Ttype: ttype,
 		Filename: r.Fname,
@@ -219,15 +217,27 @@ func AddRxTran(g *gocui.Gui, r *request.Request, from *net.UDPAddr, tx chan inte
 		Data: nil, Dcount: 0,
 		Progress: 0, Inrespto: 0, CurFills: nil}
 
-	// Add the transfer to our current slice
+	// Add the transfer to our current slice, unless it is already underway
+	errcode := "success"
+	underway := false
 	Trmu.Lock()
-	Transfers = append(Transfers, t)
+	for i := range Transfers {
+		if Transfers[i].Session == t.Session && Transfers[i].Peer.String() == t.Peer.String() {
+			underway = true
+			if Transfers[i].Ttype != t.Ttype || Transfers[i].Filename != t.Filename {
+				errcode = "badrequest" // The session is in use for something else
+			}
+		}
+	}
+	if !underway {
+		Transfers = append(Transfers, t)
+	}
 	Trmu.Unlock()
-	// Create STATUS and set errcode to "success"
-	if st.New("errcode=success", &sinfo) != nil {
-		sarwin.ErrPrintln(g, "red_black", "Cannot create success status")
+	// Create STATUS and set errcode to "success" or "badrequest"
+	if st.New("errcode="+errcode, &sinfo) != nil {
+		sarwin.ErrPrintln(g, "red_black", "Cannot create ", errcode, " status")
 		return false
 	}
 	tx <- st.Val(from)
-	return true
+	return !underway
 }
-- 
2.43.0


From a3ddd6a663d7f07e947c21710338b2fb55984d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:27 +0000
Subject: [PATCH 35/89] fix: a request does not deadlock the main loop

---
 saratoga/saratoga.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 28ec1ed..b0b8f02 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -627,9 +627,12 @@ func main() {
 				pkt := rxv4.(request.Packet)
 				sarwin.PacketPrintln(g, "white_black", "Rx", pkt.Info.ShortPrint())
 				// We have received a request to send or receive a file or dir
-				if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv4frame) {
-					sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
-				}
+				// It replies on the channel that this loop reads, so do not wait for it here
+				go func() {
+					if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv4frame) {
+						sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
+					}
+				}()
 			case status.Packet:
 				sarwin.MsgPrintln(g, "white_black", "Received v4 Saratoga STATUS Frame")
 				pkt := rxv4.(status.Packet)
@@ -659,9 +662,12 @@ func main() {
 				sarwin.MsgPrintln(g, "white_black", "Received v6 Saratoga REQUEST Frame")
 				pkt := rxv6.(request.Packet)
 				sarwin.PacketPrintln(g, "white_black", "Rx", pkt.Info.ShortPrint())
-				if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv6frame) {
-					sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
-				}
+				// It replies on the channel that this loop reads, so do not wait for it here
+				go func() {
+					if trans.AddRxTran(g, &pkt.Info, &pkt.Addr, txv6frame) {
+						sarwin.MsgPrintln(g, "yellow_black", "New transfer request from ", pkt.Addr.String())
+					}
+				}()
 			case status.Packet:
 				sarwin.MsgPrintln(g, "white_black", "Received v6 Saratoga STATUS Frame")
 				pkt := rxv6.(status.Packet)
-- 
2.43.0


From b6b9f500e01d727650424c059d216c2dc94850eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:27 +0000
Subject: [PATCH 36/89] fix: txwilling on and off set values of the txwilling
 flag

---
 sarwin/sarwin.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 8589490..0d7b434 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2420,10 +2420,10 @@ func cmdTxwilling(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("txwilling"))
 			return
 		case "on":
-			sarflags.Cliflag.Global["txwilling"] = "on"
+			sarflags.Cliflag.Global["txwilling"] = "yes"
 			return
 		case "off":
-			sarflags.Cliflag.Global["txwilling"] = "off"
+			sarflags.Cliflag.Global["txwilling"] = "no"
 			return
 		case "capable":
 			sarflags.Cliflag.Global["txwilling"] = "capable"
-- 
2.43.0


From 60727aa0c806610940ff481f41e04102130cccf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:27 +0000
Subject: [PATCH 37/89] fix: a command line of blanks does not panic

---
 sarwin/sarwin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 0d7b434..723a718 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2505,6 +2505,9 @@ func Run(g *gocui.Gui, name string) bool {
 	// Get rid of leading and trailing whitespace
 	s := strings.TrimSpace(name)
 	vals := strings.Fields(s)
+	if len(vals) == 0 { // Nothing but whitespace
+		return true
+	}
 	// Lookup the cmd and index func to run via cmdhandler map
 	for key := range sarflags.Commands {
 		if key == vals[0] {
-- 
2.43.0


From 001a5b993bb582698f19975942a30ef461da3c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:27 +0000
Subject: [PATCH 38/89] fix: enter on a line without a prompt does not panic

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 723a718..d1fb6fa 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -585,7 +585,7 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		line, _ := v.Line(cy)
 
 		command := strings.SplitN(line, ":", 2)
-		if command[1] == "" { // We have just hit enter - do nothing
+		if len(command) < 2 || command[1] == "" { // We have just hit enter - do nothing
 			return nil
 		}
 		// Save the command into history
-- 
2.43.0


From 08ecf15008eac3b5d7ab71255c64cdef210a0566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:27 +0000
Subject: [PATCH 39/89] fix: timeout metadata shows the metadata timeout

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index d1fb6fa..ee19c59 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2211,7 +2211,7 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 				MsgPrintln(g, "green_black", "request:", sarflags.Cliflag.Timeout.Request, " sec")
 			}
 		case "metadata":
-			if sarflags.Cliflag.Timeout.Request == 0 {
+			if sarflags.Cliflag.Timeout.Metadata == 0 {
 				MsgPrintln(g, "green_black", "metadata:No Timeout")
 			} else {
 				MsgPrintln(g, "green_black", "metadata:", sarflags.Cliflag.Timeout.Metadata, " sec")
-- 
2.43.0


From 86861a30ed0101ca59afd666cac136cbb5f78035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:27 +0000
Subject: [PATCH 40/89] fix: the transfer list shows the direction of each
 transfer

---
 sarwin/sarwin.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index ee19c59..75c382d 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1105,8 +1105,8 @@ func Info(g *gocui.Gui, ttype string) {
 			}
 		}
 		// Table format
-		sfmt := fmt.Sprintf("|%%6s|%%8s|%%%ds|%%%ds|\n", maxaddrlen, maxfname)
-		sborder := fmt.Sprintf(sfmt, strings.Repeat("-", 6), strings.Repeat("-", 8),
+		sfmt := fmt.Sprintf("|%%9s|%%8s|%%%ds|%%%ds|\n", maxaddrlen, maxfname)
+		sborder := fmt.Sprintf(sfmt, strings.Repeat("-", 9), strings.Repeat("-", 8),
 			strings.Repeat("-", maxaddrlen), strings.Repeat("-", maxfname))
 
 		var sslice sort.StringSlice
@@ -1230,7 +1230,7 @@ func (t *Transfer) Remove() error {
 
 // FmtPrint - String of relevant transfer info
 func (t *Transfer) FmtPrint(sfmt string) string {
-	return fmt.Sprintf(sfmt, "Initiator",
+	return fmt.Sprintf(sfmt, Directions[t.Direction],
 		t.Ttype,
 		t.Peer.String(),
 		t.Filename)
-- 
2.43.0


From 9def04aeff00c25fe86d5d921cfd3b9bf205925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:18 +0000
Subject: [PATCH 41/89] fix: transfers found, changed and removed are the ones
 in the transfer list

---
 sarwin/sarwin.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 75c382d..6cc23cd 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -892,16 +892,18 @@ type Transfer struct {
 
 // Transfers - protected transfers in progress
 var Trmu sync.Mutex
-var Transfers = []Transfer{}
+var Transfers = []*Transfer{}
 
 // Lookup - Return a pointer to the transfer if we find it in Transfers, nil otherwise
 func Lookup(direction bool, session uint32, peer string) *Transfer {
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for _, t := range Transfers {
 		// Check if direction (Initiator or Responder), session # and IP address match in our current
 		// list of transfers (if so then return a pointer to it)
 
 		if direction == t.Direction && session == t.Session && t.Peer.String() == peer {
-			return &t
+			return t
 		}
 	}
 	return nil
@@ -909,9 +911,11 @@ func Lookup(direction bool, session uint32, peer string) *Transfer {
 
 // Lookup a host & session and return transfer pointer or nil if it does not exist
 func Match(addr string, session uint32) *Transfer {
+	Trmu.Lock()
+	defer Trmu.Unlock()
 	for i := len(Transfers) - 1; i >= 0; i-- {
 		if addr == Transfers[i].Conn.RemoteAddr().String() && session == Transfers[i].Session {
-			return &Transfers[i]
+			return Transfers[i]
 		}
 	}
 	return nil
@@ -980,7 +984,7 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	}
 	msg := fmt.Sprintf("Initiator Added %s Transfer to %s %s",
 		t.Ttype, t.Peer.String(), t.Filename)
-	Transfers = append(Transfers, *t)
+	Transfers = append(Transfers, t)
 	MsgPrintln(g, "green_black", msg)
 	return t, nil
 }
@@ -1080,20 +1084,22 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 
 	msg := fmt.Sprintf("Added %s Transfer to %s session %d",
 		Directions[t.Direction], peer, r.Session)
-	Transfers = append(Transfers, *t)
+	Transfers = append(Transfers, t)
 	MsgPrintln(g, "green_black", msg)
 	return nil
 }
 
 // Info - List transfers in progress to msg window
 func Info(g *gocui.Gui, ttype string) {
-	var tinfo []Transfer
+	var tinfo []*Transfer
 
+	Trmu.Lock()
 	for i := range Transfers {
 		if ttype == "" || Transfers[i].Ttype == ttype {
 			tinfo = append(tinfo, Transfers[i])
 		}
 	}
+	Trmu.Unlock()
 	if len(tinfo) > 0 {
 		var maxaddrlen, maxfname int // Work out the width for the table
 		for key := range tinfo {
@@ -1218,7 +1224,8 @@ func (t *Transfer) Remove() error {
 	defer Trmu.Unlock()
 
 	for i := len(Transfers) - 1; i >= 0; i-- {
-		if Lookup(t.Direction, t.Session, t.Peer.String()) != nil {
+		if t.Direction == Transfers[i].Direction && t.Session == Transfers[i].Session &&
+			t.Peer.String() == Transfers[i].Peer.String() {
 			Transfers = append(Transfers[:i], Transfers[i+1:]...)
 			return nil
 		}
-- 
2.43.0


From fba7f6436732a366369e89e7c73bfd7bec638d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:18 +0000
Subject: [PATCH 42/89] fix: NewInitiator adds a transfer only once and only
 when it has its connection and file

---
 sarwin/sarwin.go | 55 ++++++++++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 28 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 6cc23cd..2f437b5 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -924,24 +924,27 @@ func Match(addr string, session uint32) *Transfer {
 // CNew - Add a new transfer to the Transfers list
 func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c *sarflags.Cliflags) (*Transfer, error) {
 	// screen.Fprintln(g,  "red_black", "Addtran for ", ip.String(), " ", fname, " ", flags)
+
+	// Copy the FLAGS for t.cliflags, other commands may be changing them
+	sarflags.Climu.Lock()
+	cliflags, err := c.CopyCliflags()
+	sarflags.Climu.Unlock()
+	if err != nil {
+		panic(err)
+	}
+
+	// Lock it as we are going to add a new transfer slice
+	Trmu.Lock()
+	defer Trmu.Unlock()
+
+	// If the file currently exists on our system and we try to "get" it then we won;t allow that
+	// We cant overwrite an existing file on our system
+	if fileio.FileExists(fname) && (ttype == "get" || ttype == "take" || ttype == "getdir") {
+		emsg := fmt.Sprintf("File %s already exists, cannot overwrite", fname)
+		ErrPrintln(g, "red_black", emsg)
+		return nil, errors.New(emsg)
+	}
 	for _, i := range Transfers { // Don't add duplicates (ie dont try act on same fname)
-		// Make sure we have connections to all the current Transfers
-		if i.Conn == nil {
-			emsg := "No connection exists to peer: " + peer.String()
-			ErrPrintln(g, "red_black", emsg)
-			// Remove the transfer as we have no connection to a peer
-			if err := i.Remove(); err != nil {
-				ErrPrintln(g, "red_black", "Can't remove transfer of", i.Session)
-			}
-			return nil, errors.New(emsg)
-		}
-		// If the file currently exists on our system and we try to "get" it then we won;t allow that
-		// We cant overwrite an existing file on our system
-		if fileio.FileExists(fname) && (ttype == "get" || ttype == "getdelete" || ttype == "getdir") {
-			emsg := fmt.Sprintf("File %s already exists, cannot overwrite", fname)
-			ErrPrintln(g, "red_black", emsg)
-			return nil, errors.New(emsg)
-		}
 		// We do not allow duplicate transfers of a file to the same peer
 		if fname == i.Filename && peer.String() == i.Peer.String() {
 			emsg := fmt.Sprintf("Initiator %s to %s currently in progress",
@@ -952,36 +955,32 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 	}
 
 	// OK lets create the transfer
-
-	// Lock it as we are going to add a new transfer slice
-	Trmu.Lock()
-	defer Trmu.Unlock()
 	t := new(Transfer)
 	t.Direction = Initiator
 	t.Ttype = ttype
-	t.Tstamptype = c.Timestamp
+	t.Cliflags = cliflags
+	t.Tstamptype = cliflags.Timestamp
 	t.Session = newsession()
 	t.Peer = peer
 
-	var err error
 	// Dial the peer to create the connection
 	if t.Conn, err = net.DialUDP("udp", nil, peer); err != nil {
 		ErrPrintln(g, "red_black", "Cannot dial peer "+peer.String()+" "+err.Error())
+		return nil, err
 	}
 
 	// Open up the local for i/o
 	t.Filename = fname
 	if t.Fp, err = fileio.FileOpen(t.Filename, t.Ttype); err != nil {
 		ErrPrintln(g, "red_black", err)
+		t.Conn.Close()
+		return nil, err
 	}
-	if t.Filemeta, err = fileio.FileMeta(fname); err != nil {
+	// What we delete is on the peer so there need not be a local file
+	if t.Filemeta, err = fileio.FileMeta(fname); err != nil && ttype != "delete" {
 		ErrPrintln(g, "red_black", err)
 	}
 
-	// Copy the FLAGS to t.cliflags
-	if t.Cliflags, err = c.CopyCliflags(); err != nil {
-		panic(err)
-	}
 	msg := fmt.Sprintf("Initiator Added %s Transfer to %s %s",
 		t.Ttype, t.Peer.String(), t.Filename)
 	Transfers = append(Transfers, t)
-- 
2.43.0


From dbea1e54848ef151562ad54130757596e266d79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:19 +0000
Subject: [PATCH 43/89] fix: NewResponder copies the flags under their lock

---
 sarwin/sarwin.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 2f437b5..b1b7290 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1075,7 +1075,10 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 		return err
 	}
 	t.Curfills = nil
-	if t.Cliflags, err = sarflags.Cliflag.CopyCliflags(); err != nil {
+	sarflags.Climu.Lock() // Other commands may be changing them
+	t.Cliflags, err = sarflags.Cliflag.CopyCliflags()
+	sarflags.Climu.Unlock()
+	if err != nil {
 		t.Conn.Close()
 		return errors.New("cannot copy CLI flags for transfer")
 	}
-- 
2.43.0


From 8ead1625ef8eb35cbeeb99162c1fae85bfb7f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:19 +0000
Subject: [PATCH 44/89] fix: FileOpen opens the file of a putblind

---
 fileio/fileio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 1d3b604..dcf1d3e 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -74,7 +74,7 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 			}
 		}
 		return nil, err
-	case "put", "give": // We are putting a local file to a remote system
+	case "put", "give", "putblind": // We are putting a local file to a remote system
 		// Open up to read from the local file
 		if !FileExists(fname) {
 			return nil, fmt.Errorf("file does not exist: %s", fullname)
-- 
2.43.0


From 2347cd8f04f51de5f141904a572a10163475ecbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:19 +0000
Subject: [PATCH 45/89] fix: take, give, delete and tran list transfers by the
 types they have

---
 sarwin/sarwin.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index b1b7290..85ed843 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -847,7 +847,7 @@ func stpaylen(flags string) int {
 }
 
 // Ttypes - Transfer types
-var Ttypes = []string{"get", "getrm", "getdir", "put", "putblind", "putrm", "rm", "rmdir"}
+var Ttypes = []string{"get", "take", "getdir", "put", "putblind", "give", "delete", "rm", "rmdir"}
 
 // Transfer direction we are an initiator of a transfer or a respondant to a request for a transfer
 const Initiator bool = true
@@ -1638,7 +1638,7 @@ func cmdGetdir(g *gocui.Gui, args []string) {
 func cmdTake(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1:
-		Info(g, "getrm")
+		Info(g, "take")
 		return
 	case 2:
 		if args[1] == "?" {
@@ -1981,7 +1981,7 @@ func cmdGive(g *gocui.Gui, args []string) {
 
 	switch len(args) {
 	case 1:
-		Info(g, "putrm")
+		Info(g, "give")
 		return
 	case 2:
 		if args[1] == "?" {
@@ -2050,7 +2050,7 @@ func cmdDelete(g *gocui.Gui, args []string) {
 
 	switch len(args) {
 	case 1:
-		Info(g, "rm")
+		Info(g, "delete")
 		return
 	case 2:
 		if args[1] == "?" {
-- 
2.43.0


From f2c8783eb23da2d90eaf69bfc3b1f26b74ae38a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:19 +0000
Subject: [PATCH 46/89] fix: WriteStatus sends each hole in one frame that fits
 the MTU

---
 sarwin/sarwin.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 85ed843..4fe4df7 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -810,7 +810,7 @@ func maxpaylen(flags string) int {
 
 // Work out the maximum payload in status.Status frame given flags
 func stpaylen(flags string) int {
-	var hsize int
+	var hsize int = 4 // The default descriptor is d16
 	var plen int
 
 	plen = sarflags.Mtu() - 60 - 8 // 60 for IP header, 8 for UDP header
@@ -1150,6 +1150,10 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 	}
 	MsgPrintln(g, "cyan_black", "Responder Assemble & Send status to ", t.Peer.String())
 	var maxholes = stpaylen(sflags) // Work out maximum # holes we can put in a single status frame
+	if maxholes <= 0 {
+		ErrPrintln(g, "red_black", "No room for holes in status")
+		return "badstatus"
+	}
 
 	errf := sarflags.FlagValue(sflags, "errcode")
 	var lasthole int
@@ -1164,8 +1168,7 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 		framecnt = 1
 		flags = sarflags.ReplaceFlag(sflags, "allholes", "yes")
 	} else {
-		h := t.Curfills.Getholes()
-		framecnt = len(h)/maxholes + 1
+		framecnt = (lasthole + maxholes - 1) / maxholes
 		flags = sarflags.ReplaceFlag(sflags, "allholes", "no")
 	}
 
@@ -1178,8 +1181,7 @@ func (t *Transfer) WriteStatus(g *gocui.Gui, sflags string) string {
 		}
 
 		var st status.Status
-		h := t.Curfills.Getholes()
-		sinfo := status.Sinfo{Session: t.Session, Progress: t.Progress, Inrespto: t.Inrespto, Holes: h}
+		sinfo := status.Sinfo{Session: t.Session, Progress: t.Progress, Inrespto: t.Inrespto, Holes: h[starthole:endhole]}
 		if st.New(flags, &sinfo) != nil {
 			ErrPrintln(g, "red_black", "Cannot asemble status")
 			return "badstatus"
-- 
2.43.0


From f490fd1f6f87744d738cae9e432177699435f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:53 +0000
Subject: [PATCH 47/89] fix: listing peers does not race with beacons

---
 beacon/beacon.go |  7 +++++++
 sarwin/sarwin.go | 47 ++++++++++++++++++++++++-----------------------
 2 files changed, 31 insertions(+), 23 deletions(-)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index 9392721..f9a2a25 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -358,6 +358,13 @@ var pmu sync.Mutex // Protect Peers
 // Peers - Slices of unique Peer information learned from beacons
 var Peers []Peer
 
+// PeerList - Copy of the peers learned from beacons so far
+func PeerList() []Peer {
+	pmu.Lock()
+	defer pmu.Unlock()
+	return append([]Peer(nil), Peers...)
+}
+
 // NewPeer - Add/Change peer info from received beacon
 func NewPeer(b *Beacon, from *net.UDPAddr) bool {
 	if from == nil {
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 4fe4df7..0eeb55d 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1816,31 +1816,32 @@ func cmdLs(g *gocui.Gui, args []string) {
 func cmdPeers(g *gocui.Gui, args []string) {
 	switch len(args) {
 	case 1:
-		if len(beacon.Peers) == 0 {
+		peers := beacon.PeerList() // More may be learned while we list them
+		if len(peers) == 0 {
 			MsgPrintln(g, "green_black", "No Peers")
 			return
 		}
 		// Table format
 		// Work out the max length of each field
 		var addrlen, eidlen, dcrelen, dmodlen, cantxlen, canrxlen int
-		for p := range beacon.Peers {
-			if len(beacon.Peers[p].Addr) > addrlen {
-				addrlen = len(beacon.Peers[p].Addr)
+		for p := range peers {
+			if len(peers[p].Addr) > addrlen {
+				addrlen = len(peers[p].Addr)
 			}
-			if len(beacon.Peers[p].Eid) > eidlen {
-				eidlen = len(beacon.Peers[p].Eid)
+			if len(peers[p].Eid) > eidlen {
+				eidlen = len(peers[p].Eid)
 			}
-			if len(beacon.Peers[p].Canrx) > canrxlen {
-				canrxlen = len(beacon.Peers[p].Canrx)
+			if len(peers[p].Canrx) > canrxlen {
+				canrxlen = len(peers[p].Canrx)
 			}
-			if len(beacon.Peers[p].Cantx) > cantxlen {
-				cantxlen = len(beacon.Peers[p].Cantx)
+			if len(peers[p].Cantx) > cantxlen {
+				cantxlen = len(peers[p].Cantx)
 			}
-			if len(beacon.Peers[p].Created.Print()) > dcrelen {
-				dcrelen = len(beacon.Peers[p].Created.Print())
+			if len(peers[p].Created.Print()) > dcrelen {
+				dcrelen = len(peers[p].Created.Print())
 			}
-			if len(beacon.Peers[p].Created.Print()) > dmodlen {
-				dmodlen = len(beacon.Peers[p].Updated.Print())
+			if len(peers[p].Updated.Print()) > dmodlen {
+				dmodlen = len(peers[p].Updated.Print())
 			}
 		}
 		if eidlen < 3 {
@@ -1862,15 +1863,15 @@ func cmdPeers(g *gocui.Gui, args []string) {
 		sfmt := fmt.Sprintf("|%%%ds|%%6s|%%%ds|%%3s|%%%ds|%%%ds|%%%ds|%%%ds|\n",
 			addrlen, eidlen, canrxlen, cantxlen, dcrelen, dmodlen)
 		var sslice sort.StringSlice
-		for key := range beacon.Peers {
-			pinfo := fmt.Sprintf(sfmt, beacon.Peers[key].Addr,
-				strconv.Itoa(int(beacon.Peers[key].Freespace/1024/1024)),
-				beacon.Peers[key].Eid,
-				beacon.Peers[key].Maxdesc,
-				beacon.Peers[key].Canrx,
-				beacon.Peers[key].Cantx,
-				beacon.Peers[key].Created.Print(),
-				beacon.Peers[key].Updated.Print())
+		for key := range peers {
+			pinfo := fmt.Sprintf(sfmt, peers[key].Addr,
+				strconv.Itoa(int(peers[key].Freespace/1024/1024)),
+				peers[key].Eid,
+				peers[key].Maxdesc,
+				peers[key].Canrx,
+				peers[key].Cantx,
+				peers[key].Created.Print(),
+				peers[key].Updated.Print())
 			sslice = append(sslice, pinfo)
 		}
 		sort.Sort(sslice)
-- 
2.43.0


From fcaea0d85b9c1eeb063cf42d648ea01557e211d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:53 +0000
Subject: [PATCH 48/89] fix: clear changes views in the gui main loop

---
 sarwin/sarwin.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 0eeb55d..9a81c97 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -105,16 +105,18 @@ type Cmdinfo struct {
 // Clear a window
 func Clearwin(g *gocui.Gui, win string) {
 
-	var newview *gocui.View
-
-	curview := g.CurrentView()
-	curname := curview.Name()
-	// x, y := curview.Cursor()
 	if win == "msg" || win == "err" || win == "packet" {
-		newview, _ = g.SetCurrentView(win)
-		newview.Clear()
-		newview.SetCursor(0, 0)
-		g.SetCurrentView(curname)
+		// Views can only be changed in the gui main loop
+		g.Update(func(g *gocui.Gui) error {
+			ViewMu.Lock()
+			defer ViewMu.Unlock()
+			newview, err := g.View(win)
+			if err != nil {
+				return err
+			}
+			newview.Clear()
+			return newview.SetCursor(0, 0)
+		})
 	}
 }
 
-- 
2.43.0


From a0c1adcddee62296db98b64b7c58edd1c8506d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:53 +0000
Subject: [PATCH 49/89] fix: exit commands do not race for the exit level

---
 sarwin/sarwin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 9a81c97..3d13041 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1515,6 +1515,9 @@ var Cexit = -1
 
 // cmdExit -- Quit saratoga
 func cmdExit(g *gocui.Gui, args []string) {
+	sarflags.Climu.Lock()
+	defer sarflags.Climu.Unlock()
+
 	switch len(args) {
 	case 1: // exit 0
 		Cexit = 0
-- 
2.43.0


From 3ab0072178521cceb362261085d667c95ebfe899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:53 +0000
Subject: [PATCH 50/89] fix: rmtran takes the peer and session of its usage

---
 sarwin/sarwin.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 3d13041..b7130bc 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2105,18 +2105,18 @@ func cmdRmtran(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("rmtran"))
 			return
 		}
-	case 4:
-		ttype := args[1]
-		addr := args[2]
+	case 3:
+		addr := args[1]
 		// We are unsigned so Atoi does not cut it
-		if session, err := strconv.ParseUint(args[3], 10, 32); err == nil {
+		if session, err := strconv.ParseUint(args[2], 10, 32); err == nil {
 			if t := Match(addr, uint32(session)); t != nil {
 				if err := t.Remove(); err != nil {
 					MsgPrintln(g, "red_black", err.Error())
 				}
 				return
 			}
-			MsgPrintln(g, "red_black", "No such transfer:", ttype, " ", addr, " ", args[2])
+			MsgPrintln(g, "red_black", "No such transfer:", addr, " ", args[2])
+			return
 		}
 	}
 	ErrPrintln(g, "red_black", prusage("rmtran"))
-- 
2.43.0


From f064ba71c0bafb8afca801e2fc28a00d563900db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:53 +0000
Subject: [PATCH 51/89] fix: beacon off also turns off multicast beacons

---
 sarwin/sarwin.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index b7130bc..7641afc 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1326,6 +1326,8 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", "Beacons Disabled")
 			// remove and disable all beacons
 			clibeacon.hosts = nil
+			clibeacon.v4mcast = false
+			clibeacon.v6mcast = false
 			return
 		case "v4": // beacon v4
 			// V4 Multicast
-- 
2.43.0


From ba200ec366ed7d84a86890b227969a7a1adebd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:10 +0000
Subject: [PATCH 52/89] fix: beacon sends to the first of several addresses

---
 sarwin/sarwin.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 7641afc..5c91f1c 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1362,8 +1362,11 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			return
 		}
 	}
-	for i := 2; i < len(args); i++ {
+	for i := 1; i < len(args); i++ {
 		if args[1] == "off" {
+			if i == 1 {
+				continue
+			}
 			if addr, err := sarnet.UDPAddress(args[i]); err == nil {
 				clibeacon.hosts = sarnet.RemoveUDPAddrValue(clibeacon.hosts, addr)
 				continue
-- 
2.43.0


From f726bd1516fab304377caa818c96abdef0b5afd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:32 +0000
Subject: [PATCH 53/89] fix: metadata of a file without checksum drops the
 checksum of an earlier one

---
 metadata/metadata.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/metadata/metadata.go b/metadata/metadata.go
index 3218157..d06d802 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -175,6 +175,7 @@ func (m *MetaData) New(flags string, info interface{}) error {
 		if checksum, err = fileio.Checksum(csumtype, fname); err != nil {
 			return err
 		}
+		m.Checksum = nil // Not the one of an earlier file
 		csumlen := len(checksum)
 		if csumlen > 0 {
 			m.Checksum = make([]byte, len(checksum))
@@ -231,6 +232,7 @@ func (m *MetaData) Make(header uint32, info interface{}) error {
 		if checksum, err = fileio.Checksum(csumtype, fname); err != nil {
 			return err
 		}
+		m.Checksum = nil // Not the one of an earlier file
 		csumlen := len(checksum)
 		if csumlen > 0 {
 			m.Checksum = make([]byte, len(checksum))
-- 
2.43.0


From d4160628b8cceda84b656cf0209c60b2cf4a2276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:05 +0000
Subject: [PATCH 54/89] fix: frames can be sent on a dialled connection, as
 transfers do

---
 data/data.go         | 7 ++++++-
 metadata/metadata.go | 7 ++++++-
 request/request.go   | 7 ++++++-
 status/status.go     | 7 ++++++-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/data/data.go b/data/data.go
index 9106c64..4d14ba3 100644
--- a/data/data.go
+++ b/data/data.go
@@ -328,7 +328,12 @@ func (d Data) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = d.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // A dialled connection only takes Write
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
diff --git a/metadata/metadata.go b/metadata/metadata.go
index d06d802..a22c59a 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -336,7 +336,12 @@ func (m MetaData) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = m.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // A dialled connection only takes Write
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
diff --git a/request/request.go b/request/request.go
index 1ffb012..f20681b 100644
--- a/request/request.go
+++ b/request/request.go
@@ -175,7 +175,12 @@ func (r Request) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = r.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // A dialled connection only takes Write
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
diff --git a/status/status.go b/status/status.go
index 9ddb1a7..4408d6c 100644
--- a/status/status.go
+++ b/status/status.go
@@ -392,7 +392,12 @@ func (s Status) Send(conn *net.UDPConn, to *net.UDPAddr) error {
 	if buf, err = s.Encode(); err != nil {
 		return err
 	}
-	if wlen, err = conn.WriteTo(buf, to); err != nil {
+	if conn.RemoteAddr() != nil { // A dialled connection only takes Write
+		wlen, err = conn.Write(buf)
+	} else {
+		wlen, err = conn.WriteTo(buf, to)
+	}
+	if err != nil {
 		return err
 	}
 	if wlen != len(buf) {
-- 
2.43.0


From f50c2768046da459e4449204e2675aed8a45ac46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:05 +0000
Subject: [PATCH 55/89] fix: timeout shows its usage when asked to turn off an
 unknown timer

---
 sarwin/sarwin.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 5c91f1c..b79ca7d 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2322,6 +2322,8 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 			case "transfer":
 				sarflags.Cliflag.Timeout.Transfer = 60
 				MsgPrintln(g, "green_black", "transfer:", sarflags.Cliflag.Timeout.Transfer, " sec")
+			default:
+				ErrPrintln(g, "red_black", prusage("timeout"))
 			}
 			return
 		}
-- 
2.43.0


From e101d9759b6f498143f0562843bcb1339b7cf196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:05 +0000
Subject: [PATCH 56/89] fix: get reports an invalid peer address

---
 sarwin/sarwin.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index b79ca7d..12b371a 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1614,6 +1614,8 @@ func cmdGet(g *gocui.Gui, args []string) {
 			if _, err := NewInitiator(g, "get", udpad, args[2], sarflags.Cliflag); err != nil {
 				return
 			}
+		} else {
+			ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
 		}
 		return
 	}
-- 
2.43.0


From 207eb11d5055fd9c19c2a9b828949e28fe578397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:05 +0000
Subject: [PATCH 57/89] fix: put and give show their own help and usage when
 they fail

---
 sarwin/sarwin.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 12b371a..351c4c9 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1940,8 +1940,8 @@ func cmdPut(g *gocui.Gui, args []string) {
 				close(errflag)
 				return
 			}
-			MsgPrintln(g, "magenta_black", prhelp("getrm"))
-			ErrPrintln(g, "green_black", prusage("getrm"))
+			MsgPrintln(g, "magenta_black", prhelp("put"))
+			ErrPrintln(g, "green_black", prusage("put"))
 			return
 		}
 		ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
@@ -2023,11 +2023,13 @@ func cmdGive(g *gocui.Gui, args []string) {
 				MsgPrintln(g, "red_black", "Give and remove (ADD MORE CODE  HERE!!!!) local file:", t.Print())
 				return
 			}
-			ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
+			MsgPrintln(g, "magenta_black", prhelp("give"))
+			ErrPrintln(g, "green_black", prusage("give"))
+			return
 		}
-		ErrPrintln(g, "red_black", prusage("putblind"))
+		ErrPrintln(g, "green_black", "Invalid IP Address:", args[1])
 	}
-	ErrPrintln(g, "red_black", prusage("putrm"))
+	ErrPrintln(g, "red_black", prusage("give"))
 }
 
 func cmdReqtstamp(g *gocui.Gui, args []string) {
-- 
2.43.0


From f1022cf5b10a7543c2578f292b7d2678f8bb0588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:05 +0000
Subject: [PATCH 58/89] fix: ls ? shows the help of ls

---
 sarwin/sarwin.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 351c4c9..cef40de 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1811,17 +1811,19 @@ func cmdHome(g *gocui.Gui, args []string) {
 }
 
 func cmdLs(g *gocui.Gui, args []string) {
-	if len(args) != 0 {
-		ErrPrintln(g, "red_bblack", prusage("ls"))
-		return
-	}
-	switch args[1] {
-	case "?":
-		MsgPrintln(g, "magenta_black", prhelp("ls"))
-		MsgPrintln(g, "green_black", prusage("ls"))
+	switch len(args) {
+	case 1:
+		MsgPrintln(g, "green_black", "ls not implemented yet")
 		return
+	case 2:
+		switch args[1] {
+		case "?":
+			MsgPrintln(g, "magenta_black", prhelp("ls"))
+			MsgPrintln(g, "green_black", prusage("ls"))
+			return
+		}
 	}
-	MsgPrintln(g, "green_black", "ls not implemented yet")
+	ErrPrintln(g, "red_bblack", prusage("ls"))
 }
 
 // Display all of the peer information learned frm beacons
-- 
2.43.0


From d0fe1577c9611d83a905efafd65139908de2a37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:26 +0000
Subject: [PATCH 59/89] fix: a value of the wrong type in the config file is an
 error, not a panic

---
 sarflags/sarflags.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sarflags/sarflags.go b/sarflags/sarflags.go
index 8b3a051..220c296 100644
--- a/sarflags/sarflags.go
+++ b/sarflags/sarflags.go
@@ -319,8 +319,13 @@ func getmaxdesc() (desc string, err error) {
 
 // Read  in the JSON Config data
 // Set values to the filled out Cliflags structure in *Cliflags
-func (c *Cliflags) ReadConfig(fname string) error {
-	var err error
+func (c *Cliflags) ReadConfig(fname string) (err error) {
+	// A value of the wrong type in the config file is an error
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("invalid saratoga config file %s: %v", fname, r)
+		}
+	}()
 
 	// var cmu sync.Mutex
 	Flags = make(map[string]Flagtype)             // Setup the Flags global map
-- 
2.43.0


From beb1cd2e35c4daa8d79cc605057ccc5bc0a67ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:13 +0000
Subject: [PATCH 60/89] fix: removing a transfer closes its connection and file

---
 sarwin/sarwin.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index cef40de..cc2e5ef 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1232,7 +1232,15 @@ func (t *Transfer) Remove() error {
 	for i := len(Transfers) - 1; i >= 0; i-- {
 		if t.Direction == Transfers[i].Direction && t.Session == Transfers[i].Session &&
 			t.Peer.String() == Transfers[i].Peer.String() {
+			removed := Transfers[i]
 			Transfers = append(Transfers[:i], Transfers[i+1:]...)
+			// Nobody else will close what the transfer has open
+			if removed.Conn != nil {
+				removed.Conn.Close()
+			}
+			if removed.Fp != nil {
+				removed.Fp.Close()
+			}
 			return nil
 		}
 	}
-- 
2.43.0


From fad645ee020ca7a02f0d8ee07e9188eb2da392f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:43 +0000
Subject: [PATCH 61/89] fix: SetMulticastLoop closes its duplicate of the
 descriptor

---
 sarnet/sarnet.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sarnet/sarnet.go b/sarnet/sarnet.go
index fa011c0..a45ecb1 100644
--- a/sarnet/sarnet.go
+++ b/sarnet/sarnet.go
@@ -100,7 +100,11 @@ func OutboundIP(typ string) net.IP {
 
 // SetMulticastLoop - Set the Multicast Loopback address OK for Rx Multicasts
 func SetMulticastLoop(conn net.PacketConn) error {
-	file, _ := conn.(*net.UDPConn).File()
+	file, err := conn.(*net.UDPConn).File() // A duplicate of the connections descriptor
+	if err != nil {
+		return err
+	}
+	defer file.Close()
 	fd := int(file.Fd())
 	addr := conn.LocalAddr().String()
 	if isIPv4(addr) {
-- 
2.43.0


From 6590e520b04a1af6d74b56070db117baa1aedfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:22 +0000
Subject: [PATCH 62/89] fix: lines that wrap take up more than one row of a
 window

Down and coming back to a window stopped short of the last row.
---
 sarwin/sarwin.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index cc2e5ef..82e333d 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -368,7 +368,7 @@ func gotolastrow(g *gocui.Gui, v *gocui.View) {
 	ox, oy := v.Origin()
 	cx, cy := v.Cursor()
 
-	lines := len(v.BufferLines())
+	lines := len(v.ViewBufferLines()) // Rows, a line that wraps has several
 	ErrPrintf(g, "white_black", "gotolastrow ox=%d oy=%d cx=%d cy=%d blines=%d\n",
 		oy, oy, cx, cy, lines)
 	// Don't move down if we already are at the last line in current views Bufferlines
@@ -469,8 +469,8 @@ func CursorRight(g *gocui.Gui, v *gocui.View) error {
 func CursorDown(g *gocui.Gui, v *gocui.View) error {
 	ox, oy := v.Origin()
 	cx, cy := v.Cursor()
-	// Don't move down if we are at the last line in current views Bufferlines
-	if oy+cy == len(v.BufferLines())-1 {
+	// Don't move down if we are at the last row in current view, a line that wraps has several
+	if oy+cy == len(v.ViewBufferLines())-1 {
 		//ErrPrintf(g, "white_black", "%s Down oy=%d cy=%d lines=%d\n",
 		//	v.Name(), oy, cy, len(v.BufferLines()))
 		return nil
-- 
2.43.0


From 02b60fa3a7297ffff7ec4183d54ea9e9134823c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:22 +0000
Subject: [PATCH 63/89] fix: a command line can be edited when it wraps or is
 not plain ASCII

Backspace and left did nothing in the columns of the prompt on the rows below
it, right went beyond the end of the line.
---
 sarwin/sarwin.go | 58 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 9 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 82e333d..0038fc4 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -16,6 +16,7 @@ import (
 	"strings"
 	"sync"
 	"time"
+	"unicode/utf8"
 
 	"github.com/jroimartin/gocui"
 
@@ -409,16 +410,55 @@ func switchView(g *gocui.Gui, v *gocui.View) error {
 	return nil
 }
 
+// Where is the cursor, as line in the buffer and character in that line
+// A line takes up as many rows as it needs to wrap
+func position(v *gocui.View) (x int, y int) {
+	maxx, _ := v.Size()
+	_, oy := v.Origin()
+	cx, cy := v.Cursor()
+	row := oy + cy
+	lines := v.BufferLines()
+	for y = 0; y < len(lines)-1; y++ {
+		rows := utf8.RuneCountInString(lines[y])/maxx + 1
+		if row < rows {
+			break
+		}
+		row -= rows
+	}
+	return cx + row*maxx, y
+}
+
+// Put the cursor at a character in a line of the buffer
+func moveto(v *gocui.View, x int, y int) error {
+	maxx, maxy := v.Size()
+	_, oy := v.Origin()
+	row, rows := 0, 0
+	for i, line := range v.BufferLines() {
+		if i == y {
+			row = rows + x/maxx
+		}
+		rows += utf8.RuneCountInString(line)/maxx + 1
+	}
+	if rows > maxy { // It has scrolled
+		oy = rows - maxy
+		if err := v.SetOrigin(0, oy); err != nil {
+			return err
+		}
+	}
+	return v.SetCursor(x%maxx, row-oy)
+}
+
 // Backspace or Delete
 func BackSpace(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
-		cx, _ := v.Cursor()
-		if cx <= promptlen(Cinfo) { // Dont move we are at the prompt
+		x, y := position(v)
+		if x <= promptlen(Cinfo) { // Dont move we are at the prompt
 			return nil
 		}
 		// Delete rune backwards
 		v.EditDelete(true)
+		moveto(v, x-1, y)
 	case "msg", "err", "packet":
 		return nil
 	}
@@ -429,12 +469,12 @@ func BackSpace(g *gocui.Gui, v *gocui.View) error {
 func CursorLeft(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
-		cx, cy := v.Cursor()
-		if cx <= promptlen(Cinfo) { // Dont move we are at the prompt
+		x, y := position(v)
+		if x <= promptlen(Cinfo) { // Dont move we are at the prompt
 			return nil
 		}
 		// Move back a character
-		if err := v.SetCursor(cx-1, cy); err != nil {
+		if err := moveto(v, x-1, y); err != nil {
 			return nil
 			// ErrPrintln(g, "white_black", v.Name(), "LeftArrow:", "cx=", cx, "cy=", cy, "error=", err)
 		}
@@ -448,14 +488,14 @@ func CursorLeft(g *gocui.Gui, v *gocui.View) error {
 func CursorRight(g *gocui.Gui, v *gocui.View) error {
 	switch v.Name() {
 	case "cmd":
-		cx, cy := v.Cursor()
+		x, y := position(v)
+		_, cy := v.Cursor()
 		line, _ := v.Line(cy)
-		if cx >= len(line)-1 { // We are at the end of line do nothing
-			v.SetCursor(len(line), cy)
+		if x >= utf8.RuneCountInString(line) { // We are at the end of line do nothing
 			return nil
 		}
 		// Move forward a character
-		if err := v.SetCursor(cx+1, cy); err != nil {
+		if err := moveto(v, x+1, y); err != nil {
 			return nil
 			// ErrPrintln(g, "white_red", "RightArrow:", "cx=", cx, "cy=", cy, "error=", err)
 		}
-- 
2.43.0


From 3ac9a11dd38b17a99ec81a8084a22b583bc30acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:22 +0000
Subject: [PATCH 64/89] fix: there is a prompt again after a command that wraps

The row of the cursor was compared with the number of the line.
---
 sarwin/sarwin.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 0038fc4..22db919 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -562,16 +562,17 @@ func prompt(g *gocui.Gui, v *gocui.View) {
 	if g == nil || v == nil || v.Name() != "cmd" {
 		log.Fatal("prompt must be in cmd view")
 	}
-	_, oy := v.Origin()
 	_, cy := v.Cursor()
+	lines := v.BufferLines()
 	// Only display it if it is on the next new line
-	if oy+cy == Cinfo.Curline {
+	if _, y := position(v); y >= len(lines)-1 {
 		if FirstPass { // Just the prompt no precedin \n as we are the first line
 			CmdPrintf(g, "yellow_black", "%s[%d]:", Cinfo.Prompt, Cinfo.Curline)
 			v.SetCursor(promptlen(Cinfo), cy)
 			return
 		}
 		// End the last command by going to new lin \n then put up the new prompt
+		moveto(v, utf8.RuneCountInString(lines[len(lines)-1]), len(lines)-1)
 		Cinfo.Curline++
 		CmdPrintf(g, "yellow_black", "\n%s[%d]:", Cinfo.Prompt, Cinfo.Curline)
 		_, cy := v.Cursor()
-- 
2.43.0


From d2fa0bf8f3b680f45566f6e5557b3a55c4bacecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:14 +0000
Subject: [PATCH 65/89] fix: Down does not scroll a window beyond its last row

Entered while empty, the window had its cursor below the last row and went on for ever.
---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 22db919..9e4793d 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -510,7 +510,7 @@ func CursorDown(g *gocui.Gui, v *gocui.View) error {
 	ox, oy := v.Origin()
 	cx, cy := v.Cursor()
 	// Don't move down if we are at the last row in current view, a line that wraps has several
-	if oy+cy == len(v.ViewBufferLines())-1 {
+	if oy+cy >= len(v.ViewBufferLines())-1 {
 		//ErrPrintf(g, "white_black", "%s Down oy=%d cy=%d lines=%d\n",
 		//	v.Name(), oy, cy, len(v.BufferLines()))
 		return nil
-- 
2.43.0


From 830e4837ba9c0a3ba7d13f3c1aba153c0f8c3e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:18 +0000
Subject: [PATCH 66/89] fix: peers with an unknown argument answers with its
 usage

---
 sarwin/sarwin.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 9e4793d..9abad67 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1954,10 +1954,9 @@ func cmdPeers(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("peers"))
 			return
 		}
-	default:
-		MsgPrintln(g, "magenta_black", prhelp("peers"))
-		ErrPrintln(g, "red_black", prusage("peers"))
 	}
+	MsgPrintln(g, "magenta_black", prhelp("peers"))
+	ErrPrintln(g, "red_black", prusage("peers"))
 }
 
 // Initiator _put_
-- 
2.43.0


From d6dc439527a5f7072843277785e431c615d5c71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:01 +0000
Subject: [PATCH 67/89] fix: a small terminal does not end the program

---
 sarwin/sarwin.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 9abad67..d4f5491 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -167,6 +167,9 @@ func PacketPrintln(g *gocui.Gui, colour string, args ...interface{}) {
 // FirstPass -- First time around layout we don;t put \n at end of prompt
 var FirstPass = true
 
+// Smallest terminal that has room for a character of text in every view
+const minx, miny = 16, 16
+
 func Layout(g *gocui.Gui) error {
 	var err error
 	var cmd *gocui.View
@@ -177,6 +180,13 @@ func Layout(g *gocui.Gui) error {
 
 	// Maximum size of x and y
 	maxx, maxy := g.Size()
+	// On a small terminal only part of the views is visible
+	if maxx < minx {
+		maxx = minx
+	}
+	if maxy < miny {
+		maxy = miny
+	}
 	// This is the command line input view -- cli inputs and return messages go here
 	if cmd, err = g.SetView("cmd", 0, maxy-(maxy/ratio)+1, maxx/2-1, maxy-1); err != nil {
 		if err != gocui.ErrUnknownView {
-- 
2.43.0


From f67bd6f2b2a3ab1e5f9a460bcdc767461edb497d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:43 +0000
Subject: [PATCH 68/89] fix: the command line and the messages stay on the
 screen when it is resized

---
 sarwin/sarwin.go | 50 ++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index d4f5491..858f1eb 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -170,6 +170,21 @@ var FirstPass = true
 // Smallest terminal that has room for a character of text in every view
 const minx, miny = 16, 16
 
+// Place a view, if its size has changed what it shows is laid out anew
+func place(g *gocui.Gui, name string, x0, y0, x1, y1 int) (*gocui.View, error) {
+	var oldx, oldy int
+	if v, err := g.View(name); err == nil {
+		oldx, oldy = v.Size()
+	}
+	v, err := g.SetView(name, x0, y0, x1, y1)
+	if err == nil {
+		if newx, newy := v.Size(); newx != oldx || newy != oldy {
+			v.SetOrigin(0, 0)
+		}
+	}
+	return v, err
+}
+
 func Layout(g *gocui.Gui) error {
 	var err error
 	var cmd *gocui.View
@@ -187,8 +202,17 @@ func Layout(g *gocui.Gui) error {
 	if maxy < miny {
 		maxy = miny
 	}
+	// Where the cursor is in the command line, on which row depends on the width of the view
+	var x, y int
+	resized := false
+	if cmd, err = g.View("cmd"); err == nil {
+		if sizex, sizey := cmd.Size(); sizex != maxx/2-2 || sizey != maxy/ratio-3 {
+			resized = true
+			x, y = position(cmd)
+		}
+	}
 	// This is the command line input view -- cli inputs and return messages go here
-	if cmd, err = g.SetView("cmd", 0, maxy-(maxy/ratio)+1, maxx/2-1, maxy-1); err != nil {
+	if cmd, err = place(g, "cmd", 0, maxy-(maxy/ratio)+1, maxx/2-1, maxy-1); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
@@ -200,9 +224,11 @@ func Layout(g *gocui.Gui) error {
 		cmd.Overwrite = true
 		cmd.Wrap = true
 		cmd.Autoscroll = true
+	} else if resized {
+		moveto(cmd, x, y)
 	}
 	// This is the error msg view -- errors go here
-	if cmd, err = g.SetView("err", maxx/2, maxy-(maxy/ratio)+1, maxx-1, maxy-1); err != nil {
+	if cmd, err = place(g, "err", maxx/2, maxy-(maxy/ratio)+1, maxx-1, maxy-1); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
@@ -217,7 +243,7 @@ func Layout(g *gocui.Gui) error {
 	}
 	// This is the packet trace window - packet trace history goes here
 	// Toggles on/off with CtrlP
-	if packet, err = g.SetView("packet", maxx-maxx/4, 1, maxx-2, maxy-maxy/ratio-1); err != nil {
+	if packet, err = place(g, "packet", maxx-maxx/4, 1, maxx-2, maxy-maxy/ratio-1); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
@@ -232,7 +258,7 @@ func Layout(g *gocui.Gui) error {
 	}
 
 	// This is the message view window - Status and command output messages go here
-	if msg, err = g.SetView("msg", 0, 0, maxx-1, maxy-maxy/ratio); err != nil {
+	if msg, err = place(g, "msg", 0, 0, maxx-1, maxy-maxy/ratio); err != nil {
 		if err != gocui.ErrUnknownView {
 			return err
 		}
@@ -428,7 +454,7 @@ func position(v *gocui.View) (x int, y int) {
 	cx, cy := v.Cursor()
 	row := oy + cy
 	lines := v.BufferLines()
-	for y = 0; y < len(lines)-1; y++ {
+	for y = 0; y < len(lines); y++ {
 		rows := utf8.RuneCountInString(lines[y])/maxx + 1
 		if row < rows {
 			break
@@ -441,19 +467,23 @@ func position(v *gocui.View) (x int, y int) {
 // Put the cursor at a character in a line of the buffer
 func moveto(v *gocui.View, x int, y int) error {
 	maxx, maxy := v.Size()
-	_, oy := v.Origin()
 	row, rows := 0, 0
-	for i, line := range v.BufferLines() {
+	lines := v.BufferLines()
+	for i, line := range lines {
 		if i == y {
 			row = rows + x/maxx
 		}
 		rows += utf8.RuneCountInString(line)/maxx + 1
 	}
+	if y >= len(lines) {
+		row = rows + x/maxx
+	}
+	oy := 0
 	if rows > maxy { // It has scrolled
 		oy = rows - maxy
-		if err := v.SetOrigin(0, oy); err != nil {
-			return err
-		}
+	}
+	if err := v.SetOrigin(0, oy); err != nil {
+		return err
 	}
 	return v.SetCursor(x%maxx, row-oy)
 }
-- 
2.43.0


From 0205bfc73837344f0f6ac397bb7d30f5593d48f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:16 +0000
Subject: [PATCH 69/89] fix: the prompt is there before the next key, in a
 narrow window too

---
 sarwin/sarwin.go | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 858f1eb..18016fb 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -338,6 +338,16 @@ func setcolour(colour string) string {
 	}
 }
 
+// Show text in a view in colour
+func show(v *gocui.View, colour string, text string) {
+	s := setcolour(colour)
+	s += text
+	if colour != "" {
+		s += setcolour("off")
+	}
+	fmt.Fprint(v, s)
+}
+
 // fprintf out an ANSII escape sequence in colour to view
 // If colour is undefined then still print it out but in bright red to show there is an issue
 func fprintf(g *gocui.Gui, vname string, colour string, format string, args ...interface{}) {
@@ -352,12 +362,7 @@ func fprintf(g *gocui.Gui, vname string, colour string, format string, args ...i
 		}
 		// gotolastrow(g, v)
 
-		s := setcolour(colour)
-		s += fmt.Sprintf(format, args...)
-		if colour != "" {
-			s += setcolour("off")
-		}
-		fmt.Fprint(v, s)
+		show(v, colour, fmt.Sprintf(format, args...))
 		return nil
 	})
 }
@@ -602,26 +607,17 @@ func prompt(g *gocui.Gui, v *gocui.View) {
 	if g == nil || v == nil || v.Name() != "cmd" {
 		log.Fatal("prompt must be in cmd view")
 	}
-	_, cy := v.Cursor()
 	lines := v.BufferLines()
 	// Only display it if it is on the next new line
 	if _, y := position(v); y >= len(lines)-1 {
-		if FirstPass { // Just the prompt no precedin \n as we are the first line
-			CmdPrintf(g, "yellow_black", "%s[%d]:", Cinfo.Prompt, Cinfo.Curline)
-			v.SetCursor(promptlen(Cinfo), cy)
-			return
-		}
-		// End the last command by going to new lin \n then put up the new prompt
-		moveto(v, utf8.RuneCountInString(lines[len(lines)-1]), len(lines)-1)
-		Cinfo.Curline++
-		CmdPrintf(g, "yellow_black", "\n%s[%d]:", Cinfo.Prompt, Cinfo.Curline)
-		_, cy := v.Cursor()
-		v.SetCursor(promptlen(Cinfo), cy)
-		if err := CursorDown(g, v); err != nil {
-			ErrPrintln(g, "red_black", "Cannot move to next line")
-		}
-		_, cy = v.Cursor()
-		v.SetCursor(promptlen(Cinfo), cy+1)
+		newline := "" // Just the prompt no preceding \n as we are the first line
+		if !FirstPass {
+			newline = "\n"
+			Cinfo.Curline++
+		}
+		// We are in the gui main loop, the prompt is there before the next key comes
+		show(v, "yellow_black", fmt.Sprintf("%s%s[%d]:", newline, Cinfo.Prompt, Cinfo.Curline))
+		moveto(v, promptlen(Cinfo), len(v.BufferLines())-1)
 	}
 }
 
-- 
2.43.0


From e0876dee1de0bfeb72ed11f9719f1079e43cad4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:16 +0000
Subject: [PATCH 70/89] fix: a prompt with other than ASCII characters has its
 length in characters

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 18016fb..e4d0739 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -596,7 +596,7 @@ func CursorUp(g *gocui.Gui, v *gocui.View) error {
 
 // Return the length of the prompt
 func promptlen(v Cmdinfo) int {
-	return len(v.Prompt) + len(strconv.Itoa(v.Curline)) + v.Ppad
+	return utf8.RuneCountInString(v.Prompt) + len(strconv.Itoa(v.Curline)) + v.Ppad
 }
 
 // Cprompt - Command line prompt
-- 
2.43.0


From 3881ce7b72938e01ca2a72fc380724d7b0659021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:07 +0000
Subject: [PATCH 71/89] fix: the cursor keeps its place in a line that wraps
 when the keys go to other windows

---
 sarwin/sarwin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index e4d0739..0286c2f 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -414,7 +414,7 @@ func gotolastrow(g *gocui.Gui, v *gocui.View) {
 	ErrPrintf(g, "white_black", "gotolastrow ox=%d oy=%d cx=%d cy=%d blines=%d\n",
 		oy, oy, cx, cy, lines)
 	// Don't move down if we already are at the last line in current views Bufferlines
-	if oy+cy == lines-1 {
+	if _, y := position(v); oy+cy == lines-1 || v.Name() == "cmd" && y == len(v.BufferLines())-1 {
 		return
 	}
 	if err := v.SetCursor(cx, lines-1); err != nil {
-- 
2.43.0


From f628dfe5314fdb0e7b922ab9e9488cca2f0569a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:17 +0000
Subject: [PATCH 72/89] fix: a saratoga directory that is not absolute is taken
 from where we start

---
 saratoga/saratoga.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index b0b8f02..807ff2a 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -9,6 +9,7 @@ import (
 	"log"
 	"net"
 	"os"
+	"path/filepath"
 	"strings"
 	"syscall"
 
@@ -466,7 +467,10 @@ func main() {
 	sarwin.Cinfo.Prompt = Cmdptr.Prompt
 	sarwin.Cinfo.Ppad = Cmdptr.Ppad
 
-	// Move to saratoga working directory
+	// Move to saratoga working directory, which we keep the same name for from there
+	if dir, err := filepath.Abs(Cmdptr.Sardir); err == nil {
+		Cmdptr.Sardir = dir
+	}
 	if err = os.Chdir(Cmdptr.Sardir); err != nil {
 		log.Fatal(fmt.Errorf("no such directory SARDIR=%s", Cmdptr.Sardir))
 	}
-- 
2.43.0


From ae5814e3bd37ea49f558cf0446955179d3063377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:17 +0000
Subject: [PATCH 73/89] fix: an interface that is not there is named

---
 saratoga/saratoga.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 807ff2a..d54c30c 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -486,7 +486,7 @@ func main() {
 	argnumb++
 	iface, err = net.InterfaceByName(os.Args[argnumb])
 	if err != nil {
-		fmt.Println("Saratoga Unable to lookup interfacebyname:", os.Args[argnumb-1])
+		fmt.Println("Saratoga Unable to lookup interfacebyname:", os.Args[argnumb])
 		log.Fatal(err)
 	}
 	// Set the Mtu to Interface we are using
-- 
2.43.0


From 12b47a2a9b24745efae54c4750e44f0a76d22795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:20 +0000
Subject: [PATCH 74/89] fix: the terminal is restored when we quit or cannot
 start

---
 saratoga/saratoga.go | 10 +++++++++-
 sarwin/sarwin.go     |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index d54c30c..dc06bfe 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -498,11 +498,12 @@ func main() {
 		fmt.Printf("Cannot run gocui user interface")
 		log.Fatal(err)
 	}
-	defer g.Close()
+	defer g.Close() // Not done by log.Fatal, so restore the terminal before it
 
 	// Get Host Interfaces & Address's
 	ifis, ierr := net.Interfaces()
 	if ierr != nil {
+		g.Close()
 		fmt.Println(ierr.Error())
 		log.Fatal(ierr)
 	}
@@ -540,10 +541,12 @@ func main() {
 	// Set up for Listen to Multicast v6
 	v6mcastcon, err := net.ListenMulticastUDP("udp6", iface, &v6mcastaddr)
 	if err != nil {
+		g.Close()
 		log.Println("Saratoga Unable to Listen on IPv6 Multicast ", v6mcastaddr.IP, " ", v6mcastaddr.Port)
 		log.Fatal(err)
 	}
 	if err := sarnet.SetMulticastLoop(v6mcastcon); err != nil {
+		g.Close()
 		log.Fatal(err)
 	}
 
@@ -556,10 +559,12 @@ func main() {
 	// Set up for Listen to Multicast v4
 	v4mcastcon, err := net.ListenMulticastUDP("udp4", iface, &v4mcastaddr)
 	if err != nil {
+		g.Close()
 		log.Println("Saratoga Unable to Listen on IPv4 Multicast ", v4mcastaddr.IP, " ", v4mcastaddr.Port)
 		log.Fatal(err)
 	}
 	if err := sarnet.SetMulticastLoop(v4mcastcon); err != nil {
+		g.Close()
 		log.Fatal(err)
 	}
 
@@ -730,8 +735,10 @@ func main() {
 				sarwin.ErrPrintln(g, "blue_black", "Need to send v6 Saratoga INVALID Frame")
 			}
 		case v4err := <-v4listenquit:
+			g.Close()
 			log.Fatal("Saratoga v4 listener has quit with error:", v4err)
 		case v6err := <-v6listenquit:
+			g.Close()
 			log.Fatal("Saratoga v6 listener has quit with error:", v6err)
 		case err := <-errflag:
 			if err != nil {
@@ -745,6 +752,7 @@ func main() {
 // Go routine for command line loop
 func gocuimainloop(g *gocui.Gui, done chan error) {
 	err := g.MainLoop()
+	g.Close()
 	// fmt.Println(err.Error())
 	done <- err
 }
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 0286c2f..d3763a4 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -673,6 +673,7 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		if command[1] == "exit" || command[1] == "quit" {
 			// Sarwg.Wait()
 			err := Quit(g, v)
+			g.Close()
 			// THIS IS A KLUDGE FIX IT WITH A CHANNEL
 			log.Fatal("\nGocui Exit. Bye!\n", err)
 		}
-- 
2.43.0


From 88c311a657de02f501b82382423c35c117b3bc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:39 +0000
Subject: [PATCH 75/89] fix: frames are sent to the configured port

---
 sarnet/sarnet.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sarnet/sarnet.go b/sarnet/sarnet.go
index a45ecb1..629f697 100644
--- a/sarnet/sarnet.go
+++ b/sarnet/sarnet.go
@@ -12,6 +12,8 @@ import (
 	"strconv"
 	"strings"
 	"syscall"
+
+	"github.com/charlesetsmith/saratoga/sarflags"
 )
 
 // SaratogaPort - IANA allocated Saratoga UDP & TCP Port is 7542
@@ -49,7 +51,11 @@ func UDPAddress(s string) (*net.UDPAddr, error) {
 	} else {
 		return nil, errors.New("Invalid IPAddress:" + s)
 	}
-	a = a + ":" + strconv.Itoa(Port)
+	port := Port
+	if c := sarflags.Cliflag; c != nil && c.Port != 0 { // The port configured to listen and send on
+		port = c.Port
+	}
+	a = a + ":" + strconv.Itoa(port)
 	if udpad, err := net.ResolveUDPAddr("udp", a); err == nil {
 		return udpad, nil
 	}
-- 
2.43.0


From d362dc1a474b758ab66214fe02ee3d840389c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:01 +0000
Subject: [PATCH 76/89] fix: what is printed is shown in the order it was
 printed

---
 sarwin/sarwin.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index d3763a4..489bbc0 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -94,6 +94,29 @@ var bg = map[string]string{
 // Ensure multiple prints to screen don't interfere with eachother
 var ViewMu sync.Mutex
 
+// Changes to make to the views in the order asked for, which Update of the gui itself does not keep
+var updates = make(map[*gocui.Gui][]func(*gocui.Gui) error)
+var updatesmu sync.Mutex
+
+// Change the views in the gui main loop
+func update(g *gocui.Gui, f func(*gocui.Gui) error) {
+	updatesmu.Lock()
+	updates[g] = append(updates[g], f)
+	updatesmu.Unlock()
+	g.Update(func(g *gocui.Gui) error {
+		updatesmu.Lock()
+		todo := updates[g]
+		delete(updates, g)
+		updatesmu.Unlock()
+		for _, f := range todo {
+			if err := f(g); err != nil {
+				return err
+			}
+		}
+		return nil
+	})
+}
+
 // Viewinfo -- Data and info on views (cmd & msg)
 type Cmdinfo struct {
 	Commands []string // History of commands
@@ -108,7 +131,7 @@ func Clearwin(g *gocui.Gui, win string) {
 
 	if win == "msg" || win == "err" || win == "packet" {
 		// Views can only be changed in the gui main loop
-		g.Update(func(g *gocui.Gui) error {
+		update(g, func(g *gocui.Gui) error {
 			ViewMu.Lock()
 			defer ViewMu.Unlock()
 			newview, err := g.View(win)
@@ -352,7 +375,7 @@ func show(v *gocui.View, colour string, text string) {
 // If colour is undefined then still print it out but in bright red to show there is an issue
 func fprintf(g *gocui.Gui, vname string, colour string, format string, args ...interface{}) {
 
-	g.Update(func(g *gocui.Gui) error {
+	update(g, func(g *gocui.Gui) error {
 		ViewMu.Lock()
 		defer ViewMu.Unlock()
 		v, err := g.View(vname)
@@ -371,7 +394,7 @@ func fprintf(g *gocui.Gui, vname string, colour string, format string, args ...i
 // If colour is undefined then still print it out but in bright red to show there is an issue
 func fprintln(g *gocui.Gui, vname string, colour string, args ...interface{}) {
 
-	g.Update(func(g *gocui.Gui) error {
+	update(g, func(g *gocui.Gui) error {
 		ViewMu.Lock()
 		defer ViewMu.Unlock()
 		v, err := g.View(vname)
-- 
2.43.0


From a52d6313d2c03e5dffe281a1e3398a527a50a09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:12 +0000
Subject: [PATCH 77/89] fix: IPv6 multicast beacons name the interface, without
 it they cannot be sent

---
 saratoga/saratoga.go | 2 ++
 sarnet/sarnet.go     | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index dc06bfe..ee705b4 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -491,6 +491,8 @@ func main() {
 	}
 	// Set the Mtu to Interface we are using
 	sarflags.MtuSet(iface.MTU)
+	// And send link-local multicasts on it
+	sarnet.Iface = iface.Name
 
 	// Set up the gocui interface and start the mainloop
 	g, gerr := gocui.NewGui(gocui.OutputNormal)
diff --git a/sarnet/sarnet.go b/sarnet/sarnet.go
index 629f697..bc76d8e 100644
--- a/sarnet/sarnet.go
+++ b/sarnet/sarnet.go
@@ -25,6 +25,9 @@ const IPv4Multicast string = "224.0.0.108"
 // IPv6Multicast -- IANA allocated Saratoga IPV6 link-local Multicast Address is "FF02:0:0:0:0:0:0:6c" or "FF02::6c"
 const IPv6Multicast string = "FF02::6c"
 
+// Iface -- Name of the interface to send link-local IPv6 multicasts on
+var Iface string
+
 // MaxFrameSize -- Maximum Saratoga Frame Size
 // Move this to Network Section & Calculate it
 // const MaxFrameSize = 1500 - 60 // After MTU & IPv6 Header
@@ -57,6 +60,9 @@ func UDPAddress(s string) (*net.UDPAddr, error) {
 	}
 	a = a + ":" + strconv.Itoa(port)
 	if udpad, err := net.ResolveUDPAddr("udp", a); err == nil {
+		if udpad.Zone == "" && udpad.IP.To4() == nil && udpad.IP.IsLinkLocalMulticast() {
+			udpad.Zone = Iface // The same group is on every interface
+		}
 		return udpad, nil
 	}
 	return nil, errors.New("Cannot ResolveUDPAddr: " + a)
-- 
2.43.0


From 005dd262e6d9c7254a2989d94b1a77a046a2e0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:10 +0000
Subject: [PATCH 78/89] fix: getdir creates a directory that can be used and
 leaves the program where it was

---
 fileio/fileio.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index dcf1d3e..944c6ee 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -67,13 +67,8 @@ func FileOpen(fname string, ttype string) (*os.File, error) {
 		// Create the Directory
 		// BUT THEN WHAT DO WE DO!!!!
 		// LOTS CODE TO WRITE HERE
-		err = os.Mkdir(fullname, os.ModeDir)
-		if err == nil {
-			if err = os.Chdir(fullname); err != nil {
-				return nil, err
-			}
-		}
-		return nil, err
+		// Others depend on where we are, so stay there
+		return nil, os.Mkdir(fullname, 0777)
 	case "put", "give", "putblind": // We are putting a local file to a remote system
 		// Open up to read from the local file
 		if !FileExists(fname) {
-- 
2.43.0


From 3bcebd81a277c7dc72aeece3e725c55ad03a3f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 79/89] fix: reads and writes of one open file do not depend on
 each other's position

---
 fileio/fileio.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fileio/fileio.go b/fileio/fileio.go
index 944c6ee..2b00880 100644
--- a/fileio/fileio.go
+++ b/fileio/fileio.go
@@ -3,6 +3,7 @@ package fileio
 
 import (
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 	"strings"
@@ -119,7 +120,8 @@ func FileRead(fp *os.File, pos uint64, blen int) ([]byte, error) {
 	if err = FileSeek(fp, pos); err != nil {
 		return nil, err
 	}
-	if n, err = fp.Read(buf); err != nil {
+	// Others may be using the file too, so don't depend on where they have moved to
+	if n, err = fp.ReadAt(buf, int64(pos)); err != nil && (n == 0 || err != io.EOF) {
 		return nil, fmt.Errorf("fileread: only read %d, should be %d", n, blen)
 	}
 	buf = buf[0:n]
@@ -136,7 +138,8 @@ func FileWrite(fp *os.File, pos uint64, buf []byte) (int, error) {
 	}
 
 	// We have written something but there is an issue
-	if n, err = fp.Write(buf); err != nil {
+	// Others may be using the file too, so don't depend on where they have moved to
+	if n, err = fp.WriteAt(buf, int64(pos)); err != nil {
 		return n, err
 	}
 	// All good n can be <= len(buf)
-- 
2.43.0


From 181f387942b08ab96e4f53678792c3bbd48516bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:24 +0000
Subject: [PATCH 80/89] fix: a request that comes twice at the same time is one
 transfer

---
 sarwin/sarwin.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 489bbc0..a0ff530 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1096,17 +1096,23 @@ func NewInitiator(g *gocui.Gui, ttype string, peer *net.UDPAddr, fname string, c
 func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 
 	var err error
-	if Lookup(Responder, r.Session, peer) != nil {
-		emsg := fmt.Sprintf("Transfer %s for session %d to %s is currently in progress, cannnot duplicate transfer",
-			Directions[Responder], r.Session, peer)
-		ErrPrintln(g, "red_black", emsg)
-		return errors.New(emsg)
-	}
 	var udpaddr *net.UDPAddr
 	if udpaddr, err = net.ResolveUDPAddr("udp", peer); err != nil {
 		return err
 	}
 
+	// Lock it as we are going to add a new transfer, the same request may come again meanwhile
+	Trmu.Lock()
+	defer Trmu.Unlock()
+	for _, i := range Transfers {
+		if i.Direction == Responder && i.Session == r.Session && i.Peer.String() == udpaddr.String() {
+			emsg := fmt.Sprintf("Transfer %s for session %d to %s is currently in progress, cannnot duplicate transfer",
+				Directions[Responder], r.Session, peer)
+			ErrPrintln(g, "red_black", emsg)
+			return errors.New(emsg)
+		}
+	}
+
 	var tc *net.UDPConn
 	// Dial the peer to create the connection
 	if tc, err = net.DialUDP("udp", nil, udpaddr); err != nil {
@@ -1115,8 +1121,6 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 	}
 
 	// Create the transfer record
-	Trmu.Lock()
-	defer Trmu.Unlock()
 	t := new(Transfer)
 
 	t.Conn = tc
-- 
2.43.0


From 69b470c7cfac20384d84e03e6085abfe305ca6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:49 +0000
Subject: [PATCH 81/89] fix: a request to read, remove or write a file starts a
 transfer

---
 sarwin/sarwin.go | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index a0ff530..38b93d1 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1130,7 +1130,7 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 	t.Session = r.Session
 	// The Header flags set for the transfer
 	t.Version = sarflags.GetStr(r.Header, "version")       // What version of saratoga
-	t.Ttype = sarflags.GetStr(r.Header, "reqtype")         // What is the request type "get,getrm,put,putrm,putblind,rm"
+	t.Ttype = sarflags.GetStr(r.Header, "reqtype")         // What is the request type "get,take,put,give,delete,getdir"
 	t.Fileordir = sarflags.GetStr(r.Header, "fileordir")   // Are we handling a file or directory entry
 	t.Udplite = sarflags.GetStr(r.Header, "udplite")       // Should always be "no"
 	t.Stream = sarflags.GetStr(r.Header, "stream")         // Denotes a named pipe
@@ -1149,37 +1149,38 @@ func NewResponder(g *gocui.Gui, r request.Request, peer string) error {
 	// flags
 	// property - normalfile, normaldirectory, specialfile, specialdirectory
 	// descriptor - d16, d32, d64, d128
-	// reliability - yes, no
 	var flags string
 
+	t.Dir = new(dirent.DirEnt)
 	switch t.Ttype {
-	case "get", "getrm", "rm": // We are acting on a file local to this system
+	case "get", "take", "delete", "getdir": // We are acting on a file local to this system
 		// Find the local files metadata to get it's properties
 		if t.Filemeta, err = fileio.FileMeta(t.Filename); err != nil {
 			t.Conn.Close()
 			return err
 		}
 		if t.Filemeta.IsDir {
-			flags = sarflags.AddFlag("", "property", "normaldirectory")
-			flags = sarflags.AddFlag(flags, "reliability", "yes")
+			flags = sarflags.AddFlagD("", "property", "normaldirectory")
 		} else if t.Filemeta.IsRegular {
-			flags = sarflags.AddFlag("", "property", "normalfile")
-			flags = sarflags.AddFlag(flags, "reliability", "yes")
+			flags = sarflags.AddFlagD("", "property", "normalfile")
 		} else { // specialfile (no such thing as a "specialdirectory")
-			flags = sarflags.AddFlag("", "property", "specialfile")
-			flags = sarflags.AddFlag(flags, "reliability", "no")
+			flags = sarflags.AddFlagD("", "property", "specialfile")
+		}
+		flags = sarflags.AddFlagD(flags, "descriptor", t.Descriptor)
+		if err = t.Dir.New(flags, t.Filename); err != nil {
+			t.Conn.Close()
+			return err
 		}
-		flags = sarflags.AddFlag(flags, "descriptor", t.Descriptor)
 
-	case "put", "putrm": // FIX THIS!!!!!!! We are creating/deleting a file local to this system
-		flags = sarflags.AddFlag(flags, "reliability", "yes")
-	case "putblind": // We are putting a file onto this system
-		flags = sarflags.AddFlag(flags, "reliability", "no")
-	}
-	t.Dir = new(dirent.DirEnt)
-	if err = t.Dir.New(flags, t.Filename); err != nil {
+	case "put", "give": // We are creating a file local to this system, its metadata tell us what it is
+		if fileio.FileExists(t.Filename) {
+			t.Conn.Close()
+			return fmt.Errorf("file %s already exists, cannot overwrite", t.Filename)
+		}
+
+	default:
 		t.Conn.Close()
-		return err
+		return fmt.Errorf("invalid request type %s", t.Ttype)
 	}
 	t.Curfills = nil
 	sarflags.Climu.Lock() // Other commands may be changing them
-- 
2.43.0


From 633ddef6972fe07d33c6b6e7ffb4a34ea4b2aef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:47 +0000
Subject: [PATCH 82/89] fix: other commands run while beacons are being sent

---
 sarwin/sarwin.go | 51 ++++++++++++++++++++++++++----------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 38b93d1..0b917cf 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1402,28 +1402,28 @@ var clibeacon Beaconcmd
 // cmdBeacon - Beacon commands
 func cmdBeacon(g *gocui.Gui, args []string) {
 
-	// Protects beacon.Beacon structure (EID)
+	// Sending beacons takes time, other commands can be run meanwhile
 	sarflags.Climu.Lock()
-	defer sarflags.Climu.Unlock()
-
-	clibeacon.flags = sarflags.Setglobal("beacon", sarflags.Cliflag) // Initialise Global Beacon flags
-	clibeacon.interval = sarflags.Cliflag.Timeout.Binterval          // Set up the correct interval
-	clibeacon.count = sarflags.Cliflag.Bcount
+	clib := clibeacon
+	clib.flags = sarflags.Setglobal("beacon", sarflags.Cliflag) // Initialise Global Beacon flags
+	clib.interval = sarflags.Cliflag.Timeout.Binterval          // Set up the correct interval
+	clib.count = sarflags.Cliflag.Bcount
+	sarflags.Climu.Unlock()
 
 	if len(args) == 1 { // beacon
-		if !clibeacon.v4mcast && !clibeacon.v6mcast && len(clibeacon.hosts) == 0 {
+		if !clib.v4mcast && !clib.v6mcast && len(clib.hosts) == 0 {
 			MsgPrintln(g, "yellow_black", "No beacons currently being sent")
 			return
 		}
-		if clibeacon.v4mcast {
-			MsgPrintf(g, "yellow_black", "Sending %d IPv4 multicast beacons\n", clibeacon.count)
+		if clib.v4mcast {
+			MsgPrintf(g, "yellow_black", "Sending %d IPv4 multicast beacons\n", clib.count)
 		}
-		if clibeacon.v6mcast {
-			MsgPrintf(g, "yellow_black", "Sending %d IPv6 multicast beacons\n", clibeacon.count)
+		if clib.v6mcast {
+			MsgPrintf(g, "yellow_black", "Sending %d IPv6 multicast beacons\n", clib.count)
 		}
-		if len(clibeacon.hosts) > 0 {
-			MsgPrintf(g, "cyan_black", "Sending %d beacons to:", clibeacon.count)
-			for _, h := range clibeacon.hosts {
+		if len(clib.hosts) > 0 {
+			MsgPrintf(g, "cyan_black", "Sending %d beacons to:", clib.count)
+			for _, h := range clib.hosts {
 				MsgPrintln(g, "cyan_black", "\t", h.String())
 			}
 		}
@@ -1436,39 +1436,42 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", prusage("beacon"))
 			return
 		case "off": // All beacons off
-			clibeacon.flags = sarflags.Setglobal("beacon", sarflags.Cliflag)
 			MsgPrintln(g, "green_black", "Beacons Disabled")
 			// remove and disable all beacons
+			sarflags.Climu.Lock()
 			clibeacon.hosts = nil
 			clibeacon.v4mcast = false
 			clibeacon.v6mcast = false
+			sarflags.Climu.Unlock()
 			return
 		case "v4": // beacon v4
 			// V4 Multicast
 			MsgPrintln(g, "cyan_black", "Sending beacon to IPv4 Multicast")
-			clibeacon.flags = sarflags.Setglobal("beacon", sarflags.Cliflag)
+			sarflags.Climu.Lock()
 			clibeacon.v4mcast = true
+			sarflags.Climu.Unlock()
 			// Start up the beacon client sending count IPv4 beacons
 			if addr, err := sarnet.UDPAddress(sarflags.Cliflag.V4Multicast); err == nil {
-				sendbeacons(g, clibeacon, addr)
+				sendbeacons(g, clib, addr)
 			}
 			return
 		case "v6": // beacon v6
 			// V6 Multicast
 			MsgPrintln(g, "cyan_black", "Sending beacon to IPv6 Multicast")
-			clibeacon.flags = sarflags.Setglobal("beacon", sarflags.Cliflag)
+			sarflags.Climu.Lock()
 			clibeacon.v6mcast = true
+			sarflags.Climu.Unlock()
 			if addr, err := sarnet.UDPAddress(sarflags.Cliflag.V6Multicast); err == nil {
 				// Start up the beacon client sending count IPv6 beacons
-				sendbeacons(g, clibeacon, addr)
+				sendbeacons(g, clib, addr)
 			}
 			return
 		default: // beacon <count> or beacon <ipaddr>
 			// beacon ipaddr
 			if addr, err := sarnet.UDPAddress(args[1]); err == nil {
-				MsgPrintln(g, "green_black", "Sending ", clibeacon.count,
+				MsgPrintln(g, "green_black", "Sending ", clib.count,
 					" beacons to ", addr.String())
-				sendbeacons(g, clibeacon, addr)
+				sendbeacons(g, clib, addr)
 				return
 			}
 			ErrPrintln(g, "red_black", "Invalid IP Address:", args[1])
@@ -1482,14 +1485,16 @@ func cmdBeacon(g *gocui.Gui, args []string) {
 				continue
 			}
 			if addr, err := sarnet.UDPAddress(args[i]); err == nil {
+				sarflags.Climu.Lock()
 				clibeacon.hosts = sarnet.RemoveUDPAddrValue(clibeacon.hosts, addr)
+				sarflags.Climu.Unlock()
 				continue
 			}
 		}
 		// Otherwise we have more args than 1 so send the beacon from the first arg
 		if addr, err := sarnet.UDPAddress(args[i]); err == nil {
-			MsgPrintln(g, "green_black", "Sending ", clibeacon.count, " beacons to ", addr.String())
-			sendbeacons(g, clibeacon, addr)
+			MsgPrintln(g, "green_black", "Sending ", clib.count, " beacons to ", addr.String())
+			sendbeacons(g, clib, addr)
 			continue
 		}
 		ErrPrintln(g, "red_black", "Invalid IP Address:", args[i])
-- 
2.43.0


From 53e09fcac4d7a1dd7f2b23810a3da30684014a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:16 +0000
Subject: [PATCH 83/89] fix: exit and quit end the program with the level asked
 for

---
 saratoga/saratoga.go |  3 +++
 sarwin/sarwin.go     | 25 ++++++++++++-------------
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index ee705b4..262cc6e 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -743,6 +743,9 @@ func main() {
 			g.Close()
 			log.Fatal("Saratoga v6 listener has quit with error:", v6err)
 		case err := <-errflag:
+			if sarwin.Cexit >= 0 { // We were told to exit
+				os.Exit(sarwin.Cexit)
+			}
 			if err != nil {
 				log.Fatal("Mainloop has quit with error:", err.Error())
 			}
diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 0b917cf..60974bb 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -693,13 +693,6 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		// Save the command into history
 		Cinfo.Commands = append(Cinfo.Commands, command[1])
 
-		if command[1] == "exit" || command[1] == "quit" {
-			// Sarwg.Wait()
-			err := Quit(g, v)
-			g.Close()
-			// THIS IS A KLUDGE FIX IT WITH A CHANNEL
-			log.Fatal("\nGocui Exit. Bye!\n", err)
-		}
 		// RUN THE COMMAND ENTERED!!!
 		Run(g, command[1])
 		prompt(g, v)
@@ -1637,6 +1630,15 @@ func cmdDescriptor(g *gocui.Gui, args []string) {
 // Cexit = Exit level to quit from saratoga
 var Cexit = -1
 
+// End the gui main loop and with it saratoga
+func leave(g *gocui.Gui, level int) {
+	Cexit = level
+	MsgPrintln(g, "green_black", "Good Bye!")
+	g.Update(func(g *gocui.Gui) error {
+		return Quit(g, nil)
+	})
+}
+
 // cmdExit -- Quit saratoga
 func cmdExit(g *gocui.Gui, args []string) {
 	sarflags.Climu.Lock()
@@ -1644,8 +1646,7 @@ func cmdExit(g *gocui.Gui, args []string) {
 
 	switch len(args) {
 	case 1: // exit 0
-		Cexit = 0
-		MsgPrintln(g, "green_black", "Good Bye!")
+		leave(g, 0)
 		return
 	case 2:
 		switch args[1] {
@@ -1653,11 +1654,9 @@ func cmdExit(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "magenta_black", prhelp("exit"))
 			MsgPrintln(g, "green_black", prusage("exit"))
 		case "0": // exit 0
-			Cexit = 0
-			MsgPrintln(g, "green_black", "Good Bye!")
+			leave(g, 0)
 		case "1": // exit 1
-			Cexit = 1
-			MsgPrintln(g, "green_black", "Good Bye!")
+			leave(g, 1)
 		default: // Help
 			ErrPrintln(g, "red_black", prusage("exit"))
 		}
-- 
2.43.0


From 4527c31f967033f4c21821bb0b502d2baf8e97ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:59 +0000
Subject: [PATCH 84/89] fix: showing the timeouts does not change the data
 counter

---
 sarwin/sarwin.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 60974bb..c76eece 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -2333,8 +2333,7 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 			MsgPrintln(g, "green_black", "status:", sarflags.Cliflag.Timeout.Status, " sec")
 		}
 		if sarflags.Cliflag.Timeout.Datacounter == 0 {
-			sarflags.Cliflag.Timeout.Datacounter = 100
-			MsgPrintln(g, "green_black", "Data Counter every 100 frames")
+			MsgPrintln(g, "green_black", "datacounter:Never")
 		} else {
 			MsgPrintln(g, "green_black", "datacounter:", sarflags.Cliflag.Timeout.Datacounter, " frames")
 		}
@@ -2369,7 +2368,6 @@ func cmdTimeout(g *gocui.Gui, args []string) {
 			}
 		case "datacounter":
 			if sarflags.Cliflag.Timeout.Datacounter == 0 {
-				sarflags.Cliflag.Timeout.Datacounter = 100
 				MsgPrintln(g, "green_black", "datacounter:Never")
 			} else {
 				MsgPrintln(g, "green_black", "datacounter:", sarflags.Cliflag.Timeout.Datacounter, " frames")
-- 
2.43.0


From 86492fca647bda2f6765b9291554a27ce4686e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:23 +0000
Subject: [PATCH 85/89] fix: a data frame without payload is decoded whatever
 its descriptor

---
 data/data.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/data/data.go b/data/data.go
index 4d14ba3..7b3d6c1 100644
--- a/data/data.go
+++ b/data/data.go
@@ -183,9 +183,6 @@ func (d *Data) Decode(frame []byte) error {
 			d.Offset = uint64(binary.BigEndian.Uint16(frame[24:26])) // 2 bytes
 			d.Payload = make([]byte, len(frame[26:]))
 			copy(d.Payload, frame[26:])
-			if len(d.Payload) == 0 {
-				return errors.New("length of data payload is 0")
-			}
 		case "d32":
 			d.Offset = uint64(binary.BigEndian.Uint32(frame[24:28])) // 4 bytes
 			d.Payload = make([]byte, len(frame[28:]))
-- 
2.43.0


From a030839176bb076047f62aae01fdd2158f8c8f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:56 +0000
Subject: [PATCH 86/89] fix: a flag without a value, or with two, is refused
 when a frame is built

New indexed past the end of the flag and panicked on "descriptor", and took
"descriptor=d32=d64" for d32.
---
 beacon/beacon.go     | 3 +++
 data/data.go         | 3 +++
 dirent/dirent.go     | 3 +++
 metadata/metadata.go | 3 +++
 request/request.go   | 3 +++
 status/status.go     | 3 +++
 6 files changed, 18 insertions(+)

diff --git a/beacon/beacon.go b/beacon/beacon.go
index f9a2a25..cd8a93a 100644
--- a/beacon/beacon.go
+++ b/beacon/beacon.go
@@ -58,6 +58,9 @@ func (b *Beacon) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New("Beacon.New: flag " + flag[fl] + " is not name=value")
+		}
 
 		switch f[0] {
 		case "descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace":
diff --git a/data/data.go b/data/data.go
index 7b3d6c1..4f871a8 100644
--- a/data/data.go
+++ b/data/data.go
@@ -63,6 +63,9 @@ func (d *Data) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New("flag " + flag[fl] + " is not name=value")
+		}
 		switch f[0] {
 		case "version", "descriptor", "reqstatus", "eod":
 			if d.Header, err = sarflags.Set(d.Header, f[0], f[1]); err != nil {
diff --git a/dirent/dirent.go b/dirent/dirent.go
index 1bfbff3..2682166 100644
--- a/dirent/dirent.go
+++ b/dirent/dirent.go
@@ -87,6 +87,9 @@ func (d *DirEnt) New(flags string, path string) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New("flag " + flag[fl] + " is not name=value")
+		}
 		switch f[0] {
 		case "descriptor", "property":
 			if d.Header, err = sarflags.SetD(d.Header, f[0], f[1]); err != nil {
diff --git a/metadata/metadata.go b/metadata/metadata.go
index a22c59a..e2b281f 100644
--- a/metadata/metadata.go
+++ b/metadata/metadata.go
@@ -126,6 +126,9 @@ func (m *MetaData) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New("flag " + flag[fl] + " is not name=value")
+		}
 		switch f[0] {
 		case "descriptor", "progress", "transfer", "reliability":
 			if m.Header, err = sarflags.Set(m.Header, f[0], f[1]); err != nil {
diff --git a/request/request.go b/request/request.go
index f20681b..f3ea65c 100644
--- a/request/request.go
+++ b/request/request.go
@@ -59,6 +59,9 @@ func (r *Request) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 {
+			return errors.New("Request.New: flag " + flag[fl] + " is not name=value")
+		}
 		switch f[0] {
 		case "frametype", "version", "descriptor", "stream", "txwilling",
 			"rxwilling", "fileordir", "reqtype", "udplite":
diff --git a/status/status.go b/status/status.go
index 4408d6c..6bb4554 100644
--- a/status/status.go
+++ b/status/status.go
@@ -74,6 +74,9 @@ func (s *Status) New(flags string, info interface{}) error {
 	flag := strings.Split(flags, ",") // The name=val of the flag
 	for fl := range flag {
 		f := strings.Split(flag[fl], "=") // f[0]=name f[1]=val
+		if len(f) != 2 && (len(f) > 2 || !sarflags.GoodT(f[0])) { // A timestamp type has no value
+			return errors.New("flag " + flag[fl] + " is not name=value")
+		}
 		switch f[0] {
 		case "descriptor", "stream", "metadatarecvd", "allholes", "reqholes", "errcode":
 			if s.Header, err = sarflags.Set(s.Header, f[0], f[1]); err != nil {
-- 
2.43.0


From 931fb39a66bcd7bb768a03354ca6c42b1cf05a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:02 +0000
Subject: [PATCH 87/89] fix: a bad data frame is answered with its own session
 however short it is

---
 saratoga/saratoga.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/saratoga/saratoga.go b/saratoga/saratoga.go
index 262cc6e..faa23e1 100644
--- a/saratoga/saratoga.go
+++ b/saratoga/saratoga.go
@@ -290,17 +290,18 @@ func listen(g *gocui.Gui, conn *net.UDPConn, rx chan interface{}, tx chan interf
 			var rxerr error
 			sarwin.MsgPrintln(g, "white_black", "Data frame length is:", len(framebuf))
 			if rxerr = d.Decode(framebuf); rxerr != nil {
+				session := binary.BigEndian.Uint32(framebuf[4:8]) // Not decoded if the frame is too short
 				// Bad Packet send back a Status to the sender with current offset and session
 				var st status.Status
 				stheader := "descriptor=" + sarflags.GetStr(header, "descriptor") +
 					",metadatarecvd=no,allholes=yes,reqholes=requested,errcode=badpacket"
-				sinfo := status.Sinfo{Session: d.Session, Progress: d.Offset, Inrespto: 0, Holes: nil}
+				sinfo := status.Sinfo{Session: session, Progress: d.Offset, Inrespto: 0, Holes: nil}
 				if st.New(stheader, &sinfo) != nil {
 					sarwin.ErrPrintln(g, "red_black", "Cannot create badpacket status")
 					continue
 				}
 				sarwin.ErrPrintln(g, "red_black", "Bad Data:", rxerr, " from ",
-					sarnet.UDPinfo(remoteAddr), " session ", d.Session)
+					sarnet.UDPinfo(remoteAddr), " session ", session)
 				// Send a badpacket status back to the sender
 				tx <- st.Val(remoteAddr)
 				continue
-- 
2.43.0


From f1f84565971268e7032b74cccf530030f2449494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:38 +0000
Subject: [PATCH 88/89] fix: a prompt with a colon in it is not taken as part
 of the command

---
 sarwin/sarwin.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index c76eece..5c96d77 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -686,7 +686,8 @@ func GetLine(g *gocui.Gui, v *gocui.View) error {
 		// Get the line
 		line, _ := v.Line(cy)
 
-		command := strings.SplitN(line, ":", 2)
+		// The prompt may have colons in it too
+		command := strings.SplitN(strings.TrimPrefix(line, Cinfo.Prompt), ":", 2)
 		if len(command) < 2 || command[1] == "" { // We have just hit enter - do nothing
 			return nil
 		}
-- 
2.43.0


From 7388be79d0c26bfa50f10f518dc989880e3632a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:38 +0000
Subject: [PATCH 89/89] fix: metadata that is refused leaves the transfer as it
 was

---
 sarwin/sarwin.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sarwin/sarwin.go b/sarwin/sarwin.go
index 5c96d77..f1bc649 100644
--- a/sarwin/sarwin.go
+++ b/sarwin/sarwin.go
@@ -1304,6 +1304,12 @@ func (t *Transfer) Change(g *gocui.Gui, m metadata.MetaData) error {
 	// Lock it as we are going to add a new transfer slice
 	Trmu.Lock()
 	defer Trmu.Unlock()
+	// What we know of the file stays if we refuse the metadata
+	if len(t.Data) != 0 && len(t.Data) != (int)(m.Dir.Size) {
+		emsg := fmt.Sprintf("Size of File Differs - Old=%d New=%d",
+			len(t.Data), m.Dir.Size)
+		return errors.New(emsg)
+	}
 	t.Csumtype = sarflags.GetStr(m.Header, "csumtype")
 	t.Checksum = make([]byte, len(m.Checksum))
 	copy(t.Checksum, m.Checksum)
@@ -1314,11 +1320,6 @@ func (t *Transfer) Change(g *gocui.Gui, m metadata.MetaData) error {
 	if len(t.Data) == 0 { // Create the buffer only once
 		t.Data = make([]byte, t.Dir.Size)
 	}
-	if len(t.Data) != (int)(m.Dir.Size) {
-		emsg := fmt.Sprintf("Size of File Differs - Old=%d New=%d",
-			len(t.Data), m.Dir.Size)
-		return errors.New(emsg)
-	}
 	t.Havemeta = true
 	MsgPrintln(g, "yellow_black", "Added metadata to transfer and file buffer size ", len(t.Data))
 	return nil
-- 
2.43.0

