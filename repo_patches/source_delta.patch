From 4f8f5d7528b345ef8a5985e7d74137226f03a9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 001/132] fix: base64 encoding table was copied into a nil
 slice

---
 addressEncoder/base64.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/addressEncoder/base64.go b/addressEncoder/base64.go
index e82554f..cfe6393 100644
--- a/addressEncoder/base64.go
+++ b/addressEncoder/base64.go
@@ -31,6 +31,7 @@ func NewEncoding(encoder string) *Encoding {
 
 	e := new(Encoding)
 	e.padChar = StdPadding
+	e.encode = make([]byte, len(encoder))
 	copy(e.encode[:], encoder)
 
 	for i := 0; i < len(e.decodeMap); i++ {
-- 
2.43.0


From 7ba407bead9d141531f67557a494df0440db4c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 002/132] fix: bech32 addresses of another network, witness
 version or padding were accepted

---
 addressEncoder/addressEncoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 8f279da..2c61aa9 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -261,6 +261,10 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		if len(ret) != 20 && len(ret) != 32 {
 			return nil, ErrorInvalidHashLength
 		}
+		// human-readable part, witness version and padding must be those of the profile
+		if AddressEncode(ret, addresstype) != strings.ToLower(address) {
+			return nil, ErrorInvalidAddress
+		}
 		return ret, nil
 	}
 	if addresstype.EncodeType == "base32PolyMod" {
-- 
2.43.0


From 09722b4bdb55eb789ccb809fa1ad33b8bae267e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:26 +0000
Subject: [PATCH 003/132] fix: bech32 decoding panicked on texts shorter than a
 checksum

---
 addressEncoder/bech32/bech32.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/addressEncoder/bech32/bech32.go b/addressEncoder/bech32/bech32.go
index cb0bcd6..a43affd 100644
--- a/addressEncoder/bech32/bech32.go
+++ b/addressEncoder/bech32/bech32.go
@@ -399,6 +399,10 @@ func Decode(address, alphabet string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if len(value) < 8 {
+		return nil, ErrorInvalidAddress
+	}
+
 	tmp := make([]int8, len(value)-6)
 	copy(tmp, value)
 
-- 
2.43.0


From 26f16f93ab3f4bbd3c6948459b2272b561aa439a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:01 +0000
Subject: [PATCH 004/132] fix: cash addresses with another or no prefix skipped
 the checksum

---
 addressEncoder/base32PolyMod/base32PolyMod.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/addressEncoder/base32PolyMod/base32PolyMod.go b/addressEncoder/base32PolyMod/base32PolyMod.go
index ffa3e92..bf8a00f 100644
--- a/addressEncoder/base32PolyMod/base32PolyMod.go
+++ b/addressEncoder/base32PolyMod/base32PolyMod.go
@@ -210,10 +210,11 @@ func Decode(address, alphabet string) ([]byte, error) {
 		value[i] = charRev[c]
 	}
 
-	if prefixStr == "bitcoincash" {
-		if !verifyChecksum(bitcoincashExpandPrefix, value) {
-			return nil, ErrorInvalidAddress
-		}
+	if strings.ToLower(prefixStr) != "bitcoincash" {
+		return nil, ErrorInvalidAddress
+	}
+	if !verifyChecksum(bitcoincashExpandPrefix, value) {
+		return nil, ErrorInvalidAddress
 	}
 
 	tmp := make([]int8, len(value)-8)
-- 
2.43.0


From dc5d0d0b3f01ae8b69ad6865382ce4d8071af19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:01 +0000
Subject: [PATCH 005/132] fix: cash address decoding panicked on texts shorter
 than a checksum

---
 addressEncoder/base32PolyMod/base32PolyMod.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/addressEncoder/base32PolyMod/base32PolyMod.go b/addressEncoder/base32PolyMod/base32PolyMod.go
index bf8a00f..95043a0 100644
--- a/addressEncoder/base32PolyMod/base32PolyMod.go
+++ b/addressEncoder/base32PolyMod/base32PolyMod.go
@@ -217,6 +217,10 @@ func Decode(address, alphabet string) ([]byte, error) {
 		return nil, ErrorInvalidAddress
 	}
 
+	if len(value) < 10 {
+		return nil, ErrorInvalidAddress
+	}
+
 	tmp := make([]int8, len(value)-8)
 	copy(tmp, value)
 
-- 
2.43.0


From 50c9c70d3de68e9e5be3b41436f9fdbd68547a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:01 +0000
Subject: [PATCH 006/132] fix: cash address type did not survive decoding,
 reserved bits and padding were ignored

---
 addressEncoder/addressEncoder.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 2c61aa9..b0b2274 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -275,6 +275,14 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		if len(ret) != addresstype.HashLen {
 			return nil, ErrorInvalidHashLength
 		}
+		if ret[0]&0x80 != 0 {
+			return nil, ErrorInvalidAddress
+		}
+		// the encoder takes the address type, not the version byte
+		ret[0] >>= 3
+		if AddressEncode(ret, addresstype) != strings.ToLower(address) {
+			return nil, ErrorInvalidAddress
+		}
 		return ret, nil
 	}
 	if addresstype.EncodeType == "eip55" {
-- 
2.43.0


From 71a13a17a6570035655b5dfb2c295e0338c20c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:01 +0000
Subject: [PATCH 007/132] fix: bech32m decoding reported success for another
 prefix or checksum type

---
 addressEncoder/bech32m/bech32m.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/addressEncoder/bech32m/bech32m.go b/addressEncoder/bech32m/bech32m.go
index e4d2d83..e7d3669 100644
--- a/addressEncoder/bech32m/bech32m.go
+++ b/addressEncoder/bech32m/bech32m.go
@@ -171,9 +171,12 @@ func Bech32mEncode(prefix string, data []byte, charset string) (string, error) {
 
 func Bech32mDecode(address, prefix string, charset string) ([]byte, error) {
 	prechk, data, spec, err := Decode(address, charset)
-	if err != nil || prechk != prefix || spec != Bech32m {
+	if err != nil {
 		return nil, err
 	}
+	if prechk != prefix || spec != Bech32m {
+		return nil, fmt.Errorf("Invalid prefix or checksum type")
+	}
 
 	hash, err := Convertbits(data, 5, 8, false)
 	if err != nil {
-- 
2.43.0


From f3fe70ea1a587f61800a633a582156d5f04230b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:01 +0000
Subject: [PATCH 008/132] fix: bech32m addresses with a payload of another
 length were accepted

---
 addressEncoder/addressEncoder.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index b0b2274..b33e772 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -250,7 +250,14 @@ func AddressEncode(hash []byte, addresstype AddressType) string {
 func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 
 	if addresstype.EncodeType == "bech32m" {
-		return bech32m.Bech32mDecode(address, addresstype.ChecksumType, addresstype.Alphabet)
+		ret, err := bech32m.Bech32mDecode(address, addresstype.ChecksumType, addresstype.Alphabet)
+		if err != nil {
+			return nil, err
+		}
+		if len(ret) != addresstype.HashLen {
+			return nil, ErrorInvalidHashLength
+		}
+		return ret, nil
 	}
 
 	if addresstype.EncodeType == "bech32" {
-- 
2.43.0


From 00ab23a4c5160b6e910db99540b0e9187b64214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:01 +0000
Subject: [PATCH 009/132] fix: ETH and ICX address decoding panicked on texts
 shorter than two characters

---
 addressEncoder/addressEncoder.go | 2 +-
 addressEncoder/eip55/eip55.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index b33e772..d8a0765 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -303,7 +303,7 @@ func AddressDecode(address string, addresstype AddressType) ([]byte, error) {
 		return ret, nil
 	}
 	if addresstype.EncodeType == "ICX" {
-		if address[0] != 'h' || address[1] != 'x' {
+		if len(address) < 2 || address[0] != 'h' || address[1] != 'x' {
 			return nil, ErrorInvalidAddress
 		} else {
 			if len(address)-2 != 40 {
diff --git a/addressEncoder/eip55/eip55.go b/addressEncoder/eip55/eip55.go
index 8727322..eed4331 100644
--- a/addressEncoder/eip55/eip55.go
+++ b/addressEncoder/eip55/eip55.go
@@ -92,7 +92,7 @@ func Eip55_decode(encode_addr string)([]byte,error){
 		return nil,ErrorInvalidAddress
 	}
 	*/
-	if encode_addr[0:2] == "0x" {
+	if len(encode_addr) >= 2 && encode_addr[0:2] == "0x" {
 		encode_addr = encode_addr[2:]
 	}
 	decode_addr,err :=hex.DecodeString(encode_addr)
-- 
2.43.0


From 01611722589ad1f7431fdc268c9275626d91ccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:01 +0000
Subject: [PATCH 010/132] fix: address decoding panicked on data shorter than
 the version bytes

---
 addressEncoder/addressEncoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index d8a0765..72636cb 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -77,6 +77,9 @@ func catData(data1 []byte, data2 []byte) []byte {
 }
 
 func recoverData(data, prefix, suffix []byte) ([]byte, error) {
+	if len(data) < len(prefix)+len(suffix) {
+		return nil, ErrorInvalidAddress
+	}
 	for i := 0; i < len(prefix); i++ {
 		if data[i] != prefix[i] {
 			return nil, ErrorInvalidAddress
-- 
2.43.0


From c9239ea0835e43583f48b87c55362405f037f5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:17 +0000
Subject: [PATCH 011/132] fix: EOS and AE keys of a wrong length were accepted

---
 addressEncoder/aeternity.go | 3 +++
 addressEncoder/eos.go       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/addressEncoder/aeternity.go b/addressEncoder/aeternity.go
index 3149d57..afbad08 100644
--- a/addressEncoder/aeternity.go
+++ b/addressEncoder/aeternity.go
@@ -22,6 +22,9 @@ func decodeAE(pubKey string, addresstype AddressType) ([]byte, error) {
 	if verifyChecksum(ret, addresstype.ChecksumType) == false {
 		return nil, ErrorInvalidAddress
 	}
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
 
 	return ret[:len(ret)-4], nil
 }
diff --git a/addressEncoder/eos.go b/addressEncoder/eos.go
index 8214fb7..7a40963 100644
--- a/addressEncoder/eos.go
+++ b/addressEncoder/eos.go
@@ -32,6 +32,9 @@ func decodeEOS(pubKey string, addresstype AddressType) ([]byte, error) {
 	if verifyChecksum(ret, addresstype.ChecksumType) == false {
 		return nil, ErrorInvalidAddress
 	}
+	if len(ret)-4 != addresstype.HashLen {
+		return nil, ErrorInvalidHashLength
+	}
 
 	return ret[:len(ret)-4], nil
 }
-- 
2.43.0


From 70a4e529617af66bf0a426691a9736b775d38fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:17 +0000
Subject: [PATCH 012/132] fix: address encoding wrote into the spare capacity
 of the caller's slices

---
 addressEncoder/addressEncoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/addressEncoder/addressEncoder.go b/addressEncoder/addressEncoder.go
index 72636cb..7b93fd2 100644
--- a/addressEncoder/addressEncoder.go
+++ b/addressEncoder/addressEncoder.go
@@ -73,7 +73,7 @@ func catData(data1 []byte, data2 []byte) []byte {
 	if data2 == nil {
 		return data1
 	}
-	return append(data1, data2...)
+	return append(data1[:len(data1):len(data1)], data2...)
 }
 
 func recoverData(data, prefix, suffix []byte) ([]byte, error) {
@@ -203,7 +203,7 @@ func AddressEncode(hash []byte, addresstype AddressType) string {
 			}
 		}
 		//addPrefixHash = Prefix||hash=prxfix || public sepend key||public view key(65-byte)
-		addPrefixHash := append(addresstype.Prefix, hash...)
+		addPrefixHash := append(addresstype.Prefix[:len(addresstype.Prefix):len(addresstype.Prefix)], hash...)
 		//checksum is the first four bytes of keccak256(addPrefixHash)
 		checksum := owcrypt.Hash(addPrefixHash, 32, owcrypt.HASH_ALG_KECCAK256)[:4]
 		//Suffix checksum addPrefixHash(69-byte)
-- 
2.43.0


From 8df7fa8113670ec76c7be3120e8ccfa7b3008768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:35 +0000
Subject: [PATCH 013/132] fix: AddressCheck panicked on short texts

---
 addressEncoder/addressCheck.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/addressEncoder/addressCheck.go b/addressEncoder/addressCheck.go
index e660d61..66aecf2 100644
--- a/addressEncoder/addressCheck.go
+++ b/addressEncoder/addressCheck.go
@@ -18,6 +18,10 @@ notice:
 */
 func AddressCheck(addr string, symbol string) (bool, error) {
 	var err error
+	// the prefix tests below look at up to 12 characters; a shorter text stays invalid when padded
+	for len(addr) < 12 {
+		addr += "\x00"
+	}
 	switch symbol {
 	case "BTC":
 		if addr[0] == '1' {
-- 
2.43.0


From 66187da488da7c883f81261c19486e2b8c321525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:35 +0000
Subject: [PATCH 014/132] fix: AddressCheck refused NAS contract addresses that
 start with n1

---
 addressEncoder/addressCheck.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/addressEncoder/addressCheck.go b/addressEncoder/addressCheck.go
index 66aecf2..7fe4c76 100644
--- a/addressEncoder/addressCheck.go
+++ b/addressEncoder/addressCheck.go
@@ -408,6 +408,10 @@ func AddressCheck(addr string, symbol string) (bool, error) {
 	case "NAS":
 		if addr[0] == 'n' && addr[1] == '1' {
 			_, err = AddressDecode(addr, NAS_AccountAddress)
+			if err != nil {
+				// contract addresses with a small hash start with n1 too
+				_, err = AddressDecode(addr, NAS_SmartContractAddress)
+			}
 			if err == nil {
 				return true, err
 			} else {
-- 
2.43.0


From 6a338803087edbc7ddcf52f500a61c428a482794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:59 +0000
Subject: [PATCH 015/132] fix: bech32 and cash address decoding panicked on an
 empty text

---
 addressEncoder/base32PolyMod/base32PolyMod.go | 3 +++
 addressEncoder/bech32/bech32.go               | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/addressEncoder/base32PolyMod/base32PolyMod.go b/addressEncoder/base32PolyMod/base32PolyMod.go
index 95043a0..206591c 100644
--- a/addressEncoder/base32PolyMod/base32PolyMod.go
+++ b/addressEncoder/base32PolyMod/base32PolyMod.go
@@ -201,6 +201,9 @@ func Decode(address, alphabet string) ([]byte, error) {
 	prefixStr := strings.Split(address, ":")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 0 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/addressEncoder/bech32/bech32.go b/addressEncoder/bech32/bech32.go
index a43affd..12ef53b 100644
--- a/addressEncoder/bech32/bech32.go
+++ b/addressEncoder/bech32/bech32.go
@@ -386,6 +386,9 @@ func Decode(address, alphabet string) ([]byte, error) {
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 0 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
-- 
2.43.0


From 36cb73dc67f0581cf0b12d2813a9b2ee1fe701f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:15 +0000
Subject: [PATCH 016/132] fix: DecodeCheck panicked on texts shorter than a
 checksum and accepted hashes of any length

---
 aliencoinTransaction/base58.go      | 3 +++
 bitcoincashTransaction/base58.go    | 3 +++
 bitcoinsvTransaction/base58.go      | 3 +++
 btcLikeTxDriver/base58.go           | 3 +++
 btcTransaction/base58.go            | 3 +++
 cxcTransaction/base58.go            | 3 +++
 elastosTransaction/base58.go        | 3 +++
 fiiiTransaction/base58.go           | 3 +++
 hcTransaction/base58.go             | 3 +++
 hypercashTransaction/base58.go      | 3 +++
 omniTransaction/base58.go           | 3 +++
 ontologyTransaction/base58.go       | 3 +++
 vergeTransaction/base58.go          | 3 +++
 virtualeconomyTransaction/base58.go | 3 +++
 vollarTransaction/base58.go         | 3 +++
 waykichainTransaction/base58.go     | 3 +++
 zencashTransaction/base58.go        | 3 +++
 17 files changed, 51 insertions(+)

diff --git a/aliencoinTransaction/base58.go b/aliencoinTransaction/base58.go
index 53908d2..fe4055f 100644
--- a/aliencoinTransaction/base58.go
+++ b/aliencoinTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) != 25 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index d518067..144785c 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index af85206..6cc881a 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/btcLikeTxDriver/base58.go b/btcLikeTxDriver/base58.go
index a6a9b0d..3c11049 100644
--- a/btcLikeTxDriver/base58.go
+++ b/btcLikeTxDriver/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) != 25 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index 96f8fe2..3db9854 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/cxcTransaction/base58.go b/cxcTransaction/base58.go
index ccd7ea2..cfd9988 100644
--- a/cxcTransaction/base58.go
+++ b/cxcTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/elastosTransaction/base58.go b/elastosTransaction/base58.go
index 04054e6..8c6be00 100644
--- a/elastosTransaction/base58.go
+++ b/elastosTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/fiiiTransaction/base58.go b/fiiiTransaction/base58.go
index 2226867..bade376 100644
--- a/fiiiTransaction/base58.go
+++ b/fiiiTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string, prefix []byte) ([]byte, error) {
 	if err != nil {
 		return nil, errors.New("Invalid address!")
 	}
+	if len(ret) != len(prefix)+24 {
+		return nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/hcTransaction/base58.go b/hcTransaction/base58.go
index 772572c..c10a2b9 100644
--- a/hcTransaction/base58.go
+++ b/hcTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/hypercashTransaction/base58.go b/hypercashTransaction/base58.go
index 020220b..57dd70c 100644
--- a/hypercashTransaction/base58.go
+++ b/hypercashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/omniTransaction/base58.go b/omniTransaction/base58.go
index b080ce9..bc61f98 100644
--- a/omniTransaction/base58.go
+++ b/omniTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/ontologyTransaction/base58.go b/ontologyTransaction/base58.go
index 3f28e8c..046f145 100644
--- a/ontologyTransaction/base58.go
+++ b/ontologyTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) != 25 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/vergeTransaction/base58.go b/vergeTransaction/base58.go
index 7b1da8a..fd2b816 100644
--- a/vergeTransaction/base58.go
+++ b/vergeTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) (byte, []byte, error) {
 	if err != nil {
 		return 0, nil, errors.New("Invalid address!")
 	}
+	if len(ret) != 25 {
+		return 0, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/virtualeconomyTransaction/base58.go b/virtualeconomyTransaction/base58.go
index 999f35b..ff77792 100644
--- a/virtualeconomyTransaction/base58.go
+++ b/virtualeconomyTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, error) {
 	if err != nil {
 		return nil, errors.New("Invalid address!")
 	}
+	if len(ret) != 26 {
+		return nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(owcrypt.Hash(ret[:len(ret)-4], 32, owcrypt.HASH_ALG_BLAKE2B), 0, owcrypt.HASH_ALG_KECCAK256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/vollarTransaction/base58.go b/vollarTransaction/base58.go
index 786201c..4280825 100644
--- a/vollarTransaction/base58.go
+++ b/vollarTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/waykichainTransaction/base58.go b/waykichainTransaction/base58.go
index 80d3f60..0ebabf0 100644
--- a/waykichainTransaction/base58.go
+++ b/waykichainTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
diff --git a/zencashTransaction/base58.go b/zencashTransaction/base58.go
index 25b462c..c22792a 100644
--- a/zencashTransaction/base58.go
+++ b/zencashTransaction/base58.go
@@ -155,6 +155,9 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
+	if len(ret) < 24 {
+		return nil, nil, errors.New("Invalid address!")
+	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	for i := 0; i < 4; i++ {
 		if checksum[i] != ret[len(ret)-4+i] {
-- 
2.43.0


From 4442b637ae5971fa71eed23501f2ffd777e766fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:15 +0000
Subject: [PATCH 017/132] fix: Bech32Decode panicked on texts shorter than a
 checksum

---
 btcLikeTxDriver/bech32.go    | 3 +++
 btcTransaction/bech32.go     | 3 +++
 cosmosTransaction/bech32.go  | 3 +++
 cxcTransaction/bech32.go     | 3 +++
 evaioTransaction/bech32.go   | 3 +++
 hcTransaction/bech32.go      | 3 +++
 omniTransaction/bech32.go    | 3 +++
 zencashTransaction/bech32.go | 3 +++
 8 files changed, 24 insertions(+)

diff --git a/btcLikeTxDriver/bech32.go b/btcLikeTxDriver/bech32.go
index 828b11c..c0264f3 100644
--- a/btcLikeTxDriver/bech32.go
+++ b/btcLikeTxDriver/bech32.go
@@ -191,6 +191,9 @@ func Bech32Decode(address string) ([]byte, error) {
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/btcTransaction/bech32.go b/btcTransaction/bech32.go
index 61bcae7..7e07395 100644
--- a/btcTransaction/bech32.go
+++ b/btcTransaction/bech32.go
@@ -192,6 +192,9 @@ func Bech32Decode(address string) ([]byte, error) {
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/cosmosTransaction/bech32.go b/cosmosTransaction/bech32.go
index 91d2afd..fec4cfa 100644
--- a/cosmosTransaction/bech32.go
+++ b/cosmosTransaction/bech32.go
@@ -192,6 +192,9 @@ func Bech32Decode(address string) ([]byte, error) {
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/cxcTransaction/bech32.go b/cxcTransaction/bech32.go
index 530a591..c2ebe05 100644
--- a/cxcTransaction/bech32.go
+++ b/cxcTransaction/bech32.go
@@ -192,6 +192,9 @@ func Bech32Decode(address string) ([]byte, error) {
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/evaioTransaction/bech32.go b/evaioTransaction/bech32.go
index f594278..3ce12b8 100644
--- a/evaioTransaction/bech32.go
+++ b/evaioTransaction/bech32.go
@@ -192,6 +192,9 @@ func Bech32Decode(address string) ([]byte, error) {
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/hcTransaction/bech32.go b/hcTransaction/bech32.go
index b6cb6e8..5c4b82e 100644
--- a/hcTransaction/bech32.go
+++ b/hcTransaction/bech32.go
@@ -192,6 +192,9 @@ func Bech32Decode(address string) ([]byte, error) {
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/omniTransaction/bech32.go b/omniTransaction/bech32.go
index 640b491..23e80ae 100644
--- a/omniTransaction/bech32.go
+++ b/omniTransaction/bech32.go
@@ -192,6 +192,9 @@ func Bech32Decode(address string) ([]byte, error) {
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
diff --git a/zencashTransaction/bech32.go b/zencashTransaction/bech32.go
index c11aebd..5749ee1 100644
--- a/zencashTransaction/bech32.go
+++ b/zencashTransaction/bech32.go
@@ -192,6 +192,9 @@ func Bech32Decode(address string) ([]byte, error) {
 	prefixStr := strings.Split(address, "1")[0]
 	prefixSize++
 	valueSize := len(address) - prefixSize
+	if valueSize < 8 {
+		return nil, ErrorInvalidAddress
+	}
 	value := make([]int8, valueSize)
 	for i := 0; i < valueSize; i++ {
 		c := address[i+prefixSize]
-- 
2.43.0


From 3a8c347085637206a18daaa7a6a8944cb44a961f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:15 +0000
Subject: [PATCH 018/132] fix: btcLikeTxDriver decoded P2WSH addresses to 33
 bytes

---
 btcLikeTxDriver/bech32.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/btcLikeTxDriver/bech32.go b/btcLikeTxDriver/bech32.go
index c0264f3..1228ed8 100644
--- a/btcLikeTxDriver/bech32.go
+++ b/btcLikeTxDriver/bech32.go
@@ -1,6 +1,7 @@
 package btcLikeTxDriver
 
 import (
+	"encoding/hex"
 	"errors"
 	"strings"
 )
@@ -216,5 +217,10 @@ func Bech32Decode(address string) ([]byte, error) {
 	for i := 0; i < len(ret); i++ {
 		bytePayload[i] = byte(ret[i])
 	}
+
+	if len(bytePayload) == 33 {
+		tmp := hex.EncodeToString(bytePayload)[1:65]
+		bytePayload, _ = hex.DecodeString(tmp)
+	}
 	return bytePayload, nil
 }
-- 
2.43.0


From fe2b010df454d1ac3d9202883afbf5f9949885c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:16 +0000
Subject: [PATCH 019/132] fix: Bech32Decode ignored the witness version and the
 padding bits

---
 btcLikeTxDriver/bech32.go    | 4 ++++
 btcTransaction/bech32.go     | 4 ++++
 cosmosTransaction/bech32.go  | 4 ++++
 cxcTransaction/bech32.go     | 4 ++++
 evaioTransaction/bech32.go   | 4 ++++
 hcTransaction/bech32.go      | 4 ++++
 omniTransaction/bech32.go    | 4 ++++
 zencashTransaction/bech32.go | 4 ++++
 8 files changed, 32 insertions(+)

diff --git a/btcLikeTxDriver/bech32.go b/btcLikeTxDriver/bech32.go
index 1228ed8..383d92e 100644
--- a/btcLikeTxDriver/bech32.go
+++ b/btcLikeTxDriver/bech32.go
@@ -222,5 +222,9 @@ func Bech32Decode(address string) ([]byte, error) {
 		tmp := hex.EncodeToString(bytePayload)[1:65]
 		bytePayload, _ = hex.DecodeString(tmp)
 	}
+	// version and padding bits must be those of the encoding
+	if Bech32Encode(prefixStr, BTCBech32Alphabet, bytePayload) != address {
+		return nil, ErrorInvalidAddress
+	}
 	return bytePayload, nil
 }
diff --git a/btcTransaction/bech32.go b/btcTransaction/bech32.go
index 7e07395..5d2b1ce 100644
--- a/btcTransaction/bech32.go
+++ b/btcTransaction/bech32.go
@@ -223,5 +223,9 @@ func Bech32Decode(address string) ([]byte, error) {
 		bytePayload, _ = hex.DecodeString(tmp)
 	}
 
+	// version and padding bits must be those of the encoding
+	if Bech32Encode(prefixStr, BTCBech32Alphabet, bytePayload) != address {
+		return nil, ErrorInvalidAddress
+	}
 	return bytePayload, nil
 }
diff --git a/cosmosTransaction/bech32.go b/cosmosTransaction/bech32.go
index fec4cfa..3487698 100644
--- a/cosmosTransaction/bech32.go
+++ b/cosmosTransaction/bech32.go
@@ -223,5 +223,9 @@ func Bech32Decode(address string) ([]byte, error) {
 		bytePayload, _ = hex.DecodeString(tmp)
 	}
 
+	// version and padding bits must be those of the encoding
+	if Bech32Encode(prefixStr, ATOMBech32Alphabet, bytePayload) != address {
+		return nil, ErrorInvalidAddress
+	}
 	return bytePayload, nil
 }
diff --git a/cxcTransaction/bech32.go b/cxcTransaction/bech32.go
index c2ebe05..e8f5fff 100644
--- a/cxcTransaction/bech32.go
+++ b/cxcTransaction/bech32.go
@@ -223,5 +223,9 @@ func Bech32Decode(address string) ([]byte, error) {
 		bytePayload, _ = hex.DecodeString(tmp)
 	}
 
+	// version and padding bits must be those of the encoding
+	if Bech32Encode(prefixStr, BTCBech32Alphabet, bytePayload) != address {
+		return nil, ErrorInvalidAddress
+	}
 	return bytePayload, nil
 }
diff --git a/evaioTransaction/bech32.go b/evaioTransaction/bech32.go
index 3ce12b8..8284399 100644
--- a/evaioTransaction/bech32.go
+++ b/evaioTransaction/bech32.go
@@ -223,5 +223,9 @@ func Bech32Decode(address string) ([]byte, error) {
 		bytePayload, _ = hex.DecodeString(tmp)
 	}
 
+	// version and padding bits must be those of the encoding
+	if Bech32Encode(prefixStr, ATOMBech32Alphabet, bytePayload) != address {
+		return nil, ErrorInvalidAddress
+	}
 	return bytePayload, nil
 }
diff --git a/hcTransaction/bech32.go b/hcTransaction/bech32.go
index 5c4b82e..a52be68 100644
--- a/hcTransaction/bech32.go
+++ b/hcTransaction/bech32.go
@@ -223,5 +223,9 @@ func Bech32Decode(address string) ([]byte, error) {
 		bytePayload, _ = hex.DecodeString(tmp)
 	}
 
+	// version and padding bits must be those of the encoding
+	if Bech32Encode(prefixStr, BTCBech32Alphabet, bytePayload) != address {
+		return nil, ErrorInvalidAddress
+	}
 	return bytePayload, nil
 }
diff --git a/omniTransaction/bech32.go b/omniTransaction/bech32.go
index 23e80ae..56ff61f 100644
--- a/omniTransaction/bech32.go
+++ b/omniTransaction/bech32.go
@@ -223,5 +223,9 @@ func Bech32Decode(address string) ([]byte, error) {
 		bytePayload, _ = hex.DecodeString(tmp)
 	}
 
+	// version and padding bits must be those of the encoding
+	if Bech32Encode(prefixStr, BTCBech32Alphabet, bytePayload) != address {
+		return nil, ErrorInvalidAddress
+	}
 	return bytePayload, nil
 }
diff --git a/zencashTransaction/bech32.go b/zencashTransaction/bech32.go
index 5749ee1..a74470e 100644
--- a/zencashTransaction/bech32.go
+++ b/zencashTransaction/bech32.go
@@ -223,5 +223,9 @@ func Bech32Decode(address string) ([]byte, error) {
 		bytePayload, _ = hex.DecodeString(tmp)
 	}
 
+	// version and padding bits must be those of the encoding
+	if Bech32Encode(prefixStr, BTCBech32Alphabet, bytePayload) != address {
+		return nil, ErrorInvalidAddress
+	}
 	return bytePayload, nil
 }
-- 
2.43.0


From d3e5afdfd9b9d5b824f66ac2ba0e59757439f296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:25 +0000
Subject: [PATCH 020/132] fix: child private keys with several leading zero
 bytes came out short

---
 owkeychain/extendedkey.go | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index 97f56cd..dc81daf 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -119,10 +119,8 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 			return nil, ErrInvalidChild
 		}
 		priChild = ilNum.Bytes()
-		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
-				priChild = append([]byte{0x00}, priChild...)
-			}
+		for len(priChild) < 32 {
+			priChild = append([]byte{0x00}, priChild...)
 		}
 		priChild = inverse(priChild)
 	} else {
@@ -138,10 +136,8 @@ func getPriChildViaPriParent(il, prikey []byte, typeChoose uint32) ([]byte, erro
 			return nil, ErrInvalidChild
 		}
 		priChild = ilNum.Bytes()
-		if len(priChild) < 32 {
-			for i := 0; i < 32-len(priChild); i++ {
-				priChild = append([]byte{0x00}, priChild...)
-			}
+		for len(priChild) < 32 {
+			priChild = append([]byte{0x00}, priChild...)
 		}
 	}
 	return priChild, nil
-- 
2.43.0


From 90a4f1cf25e6db79453f5b476a27fa82535da447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:25 +0000
Subject: [PATCH 021/132] fix: public derivation beyond depth 255 wrapped the
 depth to zero

---
 owkeychain/extendedkey.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/owkeychain/extendedkey.go b/owkeychain/extendedkey.go
index dc81daf..22662a2 100644
--- a/owkeychain/extendedkey.go
+++ b/owkeychain/extendedkey.go
@@ -244,6 +244,10 @@ func (k *ExtendedKey) GenPublicChild(serializes uint32) (*ExtendedKey, error) {
 	if typeChoose == owcrypt.ECC_CURVE_X25519 || typeChoose == owcrypt.ECC_CURVE_CURVE25519_SHA256 {
 		typeChoose = owcrypt.ECC_CURVE_ED25519
 	}
+	//越过最大深度限制
+	if k.depth == maxUint8 {
+		return nil, ErrDeriveBeyondMaxDepth
+	}
 	if !k.isPrivate {
 		if serializes >= HardenedKeyStart { //不能从父公钥强化扩展
 			return nil, ErrDeriveHardFromPublic
-- 
2.43.0


From 66cbf5b4941b244777da0d7adfe35999182870a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:25 +0000
Subject: [PATCH 022/132] fix: derivation paths with an index of 2^31 or more,
 or a sign, were silently mapped to another key

---
 owkeychain/hdkey.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/owkeychain/hdkey.go b/owkeychain/hdkey.go
index e6ab4d1..bd0a211 100644
--- a/owkeychain/hdkey.go
+++ b/owkeychain/hdkey.go
@@ -43,13 +43,13 @@ func DerivedPrivateKeyWithPath(seed []byte, derivedPath string, curveType uint32
 
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 31)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 31)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
@@ -110,13 +110,13 @@ func (k *ExtendedKey) DerivedPublicKeyFromPath(derivedPath string) (*ExtendedKey
 
 		if strings.Index(elem, "'") == len(elem)-1 {
 			elem = elem[0 : len(elem)-1]
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 31)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
 			hdSerializes = uint32(index) + HardenedKeyStart
 		} else {
-			index, err := strconv.Atoi(elem)
+			index, err := strconv.ParseUint(elem, 10, 31)
 			if err != nil {
 				return nil, ErrInvalidDerivedPath
 			}
-- 
2.43.0


From 1221ef08a5683bba498a2fcb9cdc786f09f1b6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:25 +0000
Subject: [PATCH 023/132] fix: owkeychain.Base58checkDecode panicked on texts
 shorter than a prefix and a checksum

---
 owkeychain/owencode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index cdab5af..3008138 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -35,6 +35,9 @@ func Base58checkDecode(address string, fix []byte) ([]byte, error) {
 	if err != nil {
 		return nil, ErrInvalidAddress
 	}
+	if len(decodeBytes) < len(fix)+4 {
+		return nil, ErrInvalidAddress
+	}
 	for i := 0; i < len(fix); i++ {
 		if fix[i] != decodeBytes[i] {
 			return nil, ErrInvalidAddress
-- 
2.43.0


From e80aeda742d1adfd0f3c03a49195947c2257dbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:36 +0000
Subject: [PATCH 024/132] fix: OWDecode panicked on short data and accepted
 keys of any length

---
 owkeychain/owencode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index 3008138..6218dbb 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -88,6 +88,7 @@ func (k *ExtendedKey) OWEncode() string {
 func OWDecode(data string) (*ExtendedKey, error) {
 	privateFlag := true
 	decodeBytes := []byte{}
+	dataLen := 78
 	var err error
 	if strings.Index(data, "owpub") == 0 {
 		privateFlag = false
@@ -108,8 +109,12 @@ func OWDecode(data string) (*ExtendedKey, error) {
 			if err != nil {
 				return nil, err
 			}
+			dataLen = 93
 		}
 	}
+	if len(decodeBytes) != dataLen {
+		return nil, ErrInvalidAddress
+	}
 	curveType := bytesToUInt32(decodeBytes[:4])
 	depth := decodeBytes[4]
 	parentFP := decodeBytes[5:9]
-- 
2.43.0


From e56f1315ebb557aea1cb481189e4c131d02bd46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:36 +0000
Subject: [PATCH 025/132] fix: owkeychain.Base58checkEncode wrote into the
 spare capacity of the prefix slice

---
 owkeychain/owencode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/owkeychain/owencode.go b/owkeychain/owencode.go
index 6218dbb..206920b 100644
--- a/owkeychain/owencode.go
+++ b/owkeychain/owencode.go
@@ -23,7 +23,8 @@ func Base58checkEncode(data []byte, fix []byte) string {
 	hash = ctx.Sum(nil)
 
 	fix_value := []byte{}
-	fix_value = append(fix, data...)
+	fix_value = append(fix_value, fix...)
+	fix_value = append(fix_value, data...)
 	fix_value = append(fix_value, hash[:4]...)
 
 	return Encode(fix_value[:], BitcoinAlphabet)
-- 
2.43.0


From 00257b8c44858d5ac6be33cd377623c55f215931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:32 +0000
Subject: [PATCH 026/132] fix: outputs to bech32 addresses were refused or
 mistaken for other prefixes

---
 btcTransaction/txOut.go   | 16 +++++++---------
 cxcTransaction/txAsset.go | 26 +++++++++++++-------------
 cxcTransaction/txOut.go   | 14 +++++++-------
 hcTransaction/txOut.go    | 14 +++++++-------
 omniTransaction/txOut.go  | 14 +++++++-------
 5 files changed, 41 insertions(+), 43 deletions(-)

diff --git a/btcTransaction/txOut.go b/btcTransaction/txOut.go
index ff18646..1d80de8 100644
--- a/btcTransaction/txOut.go
+++ b/btcTransaction/txOut.go
@@ -27,18 +27,16 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(v.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(v.Address)
-			if err != nil {
-				return nil, errors.New("Invalid bech32 type address!")
-			}
-
-			redeem = append([]byte{byte(len(redeem))}, redeem...)
-			redeem = append([]byte{0x00}, redeem...)
+			if err == nil {
+				redeem = append([]byte{byte(len(redeem))}, redeem...)
+				redeem = append([]byte{0x00}, redeem...)
 
-			ret = append(ret, TxOut{amount, redeem})
+				ret = append(ret, TxOut{amount, redeem})
 
-			continue
+				continue
+			}
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/cxcTransaction/txAsset.go b/cxcTransaction/txAsset.go
index 43b6f06..008ee07 100644
--- a/cxcTransaction/txAsset.go
+++ b/cxcTransaction/txAsset.go
@@ -30,22 +30,22 @@ func getTransferAssetWithPayload(tos []AssetTransfer, addressPrefix AddressPrefi
 
 	ret := make([]TxOut, 0)
 	for _, to := range tos {
-		if strings.Index(to.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(to.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(to.Address)
-			if err != nil {
-				return nil, errors.New("Invalid bech32 type address!")
-			}
+			if err == nil {
+				redeem = append([]byte{byte(len(redeem))}, redeem...)
+				redeem = append([]byte{0x00}, redeem...)
+				payload := getTransferPayload(to)
+				if payload == nil {
+					return nil, errors.New("Failed to get asset payload!")
+				}
+				redeem = append(redeem, byte(len(payload)))
+				redeem = append(redeem, payload...)
+				redeem = append(redeem, OpDrop)
+				ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), redeem})
 
-			redeem = append([]byte{byte(len(redeem))}, redeem...)
-			redeem = append([]byte{0x00}, redeem...)
-			payload := getTransferPayload(to)
-			if payload == nil {
-				return nil, errors.New("Failed to get asset payload!")
+				continue
 			}
-			redeem = append(redeem, byte(len(payload)))
-			redeem = append(redeem, payload...)
-			redeem = append(redeem, OpDrop)
-			ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), redeem})
 		}
 
 		prefix, hash, err := DecodeCheck(to.Address)
diff --git a/cxcTransaction/txOut.go b/cxcTransaction/txOut.go
index 03088fa..f1dda2c 100644
--- a/cxcTransaction/txOut.go
+++ b/cxcTransaction/txOut.go
@@ -25,16 +25,16 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(v.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(v.Address)
-			if err != nil {
-				return nil, errors.New("Invalid bech32 type address!")
-			}
+			if err == nil {
+				redeem = append([]byte{byte(len(redeem))}, redeem...)
+				redeem = append([]byte{0x00}, redeem...)
 
-			redeem = append([]byte{byte(len(redeem))}, redeem...)
-			redeem = append([]byte{0x00}, redeem...)
+				ret = append(ret, TxOut{amount, redeem})
 
-			ret = append(ret, TxOut{amount, redeem})
+				continue
+			}
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/hcTransaction/txOut.go b/hcTransaction/txOut.go
index 36c4f52..f028e0f 100644
--- a/hcTransaction/txOut.go
+++ b/hcTransaction/txOut.go
@@ -25,16 +25,16 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(v.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(v.Address)
-			if err != nil {
-				return nil, errors.New("Invalid bech32 type address!")
-			}
+			if err == nil {
+				redeem = append([]byte{byte(len(redeem))}, redeem...)
+				redeem = append([]byte{0x00}, redeem...)
 
-			redeem = append([]byte{byte(len(redeem))}, redeem...)
-			redeem = append([]byte{0x00}, redeem...)
+				ret = append(ret, TxOut{amount, redeem})
 
-			ret = append(ret, TxOut{amount, redeem})
+				continue
+			}
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index 5539515..9b7f5dc 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -25,16 +25,16 @@ func newTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix Add
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
 
-		if strings.Index(v.Address, prefixStr) == 0 {
+		if prefixStr != "" && strings.Index(v.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(v.Address)
-			if err != nil {
-				return nil, errors.New("Invalid bech32 type address!")
-			}
+			if err == nil {
+				redeem = append([]byte{byte(len(redeem))}, redeem...)
+				redeem = append([]byte{0x00}, redeem...)
 
-			redeem = append([]byte{byte(len(redeem))}, redeem...)
-			redeem = append([]byte{0x00}, redeem...)
+				ret = append(ret, TxOut{amount, redeem})
 
-			ret = append(ret, TxOut{amount, redeem})
+				continue
+			}
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
-- 
2.43.0


From 8ba7feb60da96ff002d8a62e41f13e556492101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:32 +0000
Subject: [PATCH 027/132] fix: DecodeCheck accepted addresses without any
 version byte

---
 bitcoincashTransaction/base58.go | 2 +-
 bitcoinsvTransaction/base58.go   | 2 +-
 btcTransaction/base58.go         | 2 +-
 cxcTransaction/base58.go         | 2 +-
 hcTransaction/base58.go          | 2 +-
 omniTransaction/base58.go        | 2 +-
 zencashTransaction/base58.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index 144785c..fdbd313 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -155,7 +155,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
-	if len(ret) < 24 {
+	if len(ret) < 25 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index 6cc881a..cca1dfa 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -155,7 +155,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
-	if len(ret) < 24 {
+	if len(ret) < 25 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index 3db9854..7d3c85d 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -155,7 +155,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
-	if len(ret) < 24 {
+	if len(ret) < 25 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/cxcTransaction/base58.go b/cxcTransaction/base58.go
index cfd9988..f573c9b 100644
--- a/cxcTransaction/base58.go
+++ b/cxcTransaction/base58.go
@@ -155,7 +155,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
-	if len(ret) < 24 {
+	if len(ret) < 25 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/hcTransaction/base58.go b/hcTransaction/base58.go
index c10a2b9..77061eb 100644
--- a/hcTransaction/base58.go
+++ b/hcTransaction/base58.go
@@ -155,7 +155,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
-	if len(ret) < 24 {
+	if len(ret) < 25 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/omniTransaction/base58.go b/omniTransaction/base58.go
index bc61f98..c37279f 100644
--- a/omniTransaction/base58.go
+++ b/omniTransaction/base58.go
@@ -155,7 +155,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
-	if len(ret) < 24 {
+	if len(ret) < 25 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
diff --git a/zencashTransaction/base58.go b/zencashTransaction/base58.go
index c22792a..0725df2 100644
--- a/zencashTransaction/base58.go
+++ b/zencashTransaction/base58.go
@@ -155,7 +155,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 	if err != nil {
 		return nil, nil, errors.New("Invalid address!")
 	}
-	if len(ret) < 24 {
+	if len(ret) < 25 {
 		return nil, nil, errors.New("Invalid address!")
 	}
 	checksum := owcrypt.Hash(ret[:len(ret)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
-- 
2.43.0


From d80bdc293c4b72c243a556b947eb16603b866a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:32 +0000
Subject: [PATCH 028/132] fix: EncodeCheck wrote into the spare capacity of the
 prefix slice

---
 bitcoincashTransaction/base58.go | 2 +-
 bitcoinsvTransaction/base58.go   | 2 +-
 btcTransaction/base58.go         | 2 +-
 cxcTransaction/base58.go         | 2 +-
 hcTransaction/base58.go          | 2 +-
 omniTransaction/base58.go        | 2 +-
 zencashTransaction/base58.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/base58.go b/bitcoincashTransaction/base58.go
index fdbd313..3fb3a01 100644
--- a/bitcoincashTransaction/base58.go
+++ b/bitcoincashTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/bitcoinsvTransaction/base58.go b/bitcoinsvTransaction/base58.go
index cca1dfa..49e7b8c 100644
--- a/bitcoinsvTransaction/base58.go
+++ b/bitcoinsvTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/btcTransaction/base58.go b/btcTransaction/base58.go
index 7d3c85d..b4d94dc 100644
--- a/btcTransaction/base58.go
+++ b/btcTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/cxcTransaction/base58.go b/cxcTransaction/base58.go
index f573c9b..f009dc4 100644
--- a/cxcTransaction/base58.go
+++ b/cxcTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/hcTransaction/base58.go b/hcTransaction/base58.go
index 77061eb..5698827 100644
--- a/hcTransaction/base58.go
+++ b/hcTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/omniTransaction/base58.go b/omniTransaction/base58.go
index c37279f..732f7ee 100644
--- a/omniTransaction/base58.go
+++ b/omniTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/zencashTransaction/base58.go b/zencashTransaction/base58.go
index 0725df2..f825076 100644
--- a/zencashTransaction/base58.go
+++ b/zencashTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
-- 
2.43.0


From 581558e13ad5af5426c9611db774f93c9ec6d65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:05 +0000
Subject: [PATCH 029/132] fix: signatures with a damaged or non-minimal DER
 integer were accepted

---
 bitcoincashTransaction/SignaturePubkey.go | 56 +++++++----------------
 bitcoinsvTransaction/SignaturePubkey.go   | 56 +++++++----------------
 btcTransaction/SignaturePubkey.go         | 56 +++++++----------------
 cxcTransaction/SignaturePubkey.go         | 56 +++++++----------------
 hcTransaction/SignaturePubkey.go          | 56 +++++++----------------
 omniTransaction/SignaturePubkey.go        | 56 +++++++----------------
 zencashTransaction/SignaturePubkey.go     | 56 +++++++----------------
 7 files changed, 112 insertions(+), 280 deletions(-)

diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index f1c5f6a..a936b26 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -180,18 +180,12 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if rLen > 0x21 {
 		return nil, 0, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(rLen) > limit {
+	if rLen == 0 || index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 
 	sig := script[index : index+int(rLen)]
 	if rLen == 0x21 {
@@ -221,18 +215,12 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if sLen > 0x21 {
 		return nil, 0, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(sLen) > limit {
+	if sLen == 0 || index+int(sLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (sLen == 0x21 && script[index] != 0x00) || (sLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	sdata := script[index : index+int(sLen)]
 	if sLen == 0x21 {
 		sdata = sdata[1:]
@@ -304,18 +292,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if rLen > 0x21 {
 		return nil, 0, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(rLen) > limit {
+	if rLen == 0 || index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	ret.Signature = script[index : index+int(rLen)]
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
@@ -344,18 +326,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if sLen > 0x21 {
 		return nil, 0, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(sLen) > limit {
+	if sLen == 0 || index+int(sLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (sLen == 0x21 && script[index] != 0x00) || (sLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	sdata := script[index : index+int(sLen)]
 	if sLen == 0x21 {
 		sdata = sdata[1:]
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index b377fa8..dddd677 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -180,18 +180,12 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if rLen > 0x21 {
 		return nil, 0, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(rLen) > limit {
+	if rLen == 0 || index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 
 	sig := script[index : index+int(rLen)]
 	if rLen == 0x21 {
@@ -221,18 +215,12 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if sLen > 0x21 {
 		return nil, 0, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(sLen) > limit {
+	if sLen == 0 || index+int(sLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (sLen == 0x21 && script[index] != 0x00) || (sLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	sdata := script[index : index+int(sLen)]
 	if sLen == 0x21 {
 		sdata = sdata[1:]
@@ -304,18 +292,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if rLen > 0x21 {
 		return nil, 0, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(rLen) > limit {
+	if rLen == 0 || index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	ret.Signature = script[index : index+int(rLen)]
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
@@ -344,18 +326,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if sLen > 0x21 {
 		return nil, 0, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(sLen) > limit {
+	if sLen == 0 || index+int(sLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (sLen == 0x21 && script[index] != 0x00) || (sLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	sdata := script[index : index+int(sLen)]
 	if sLen == 0x21 {
 		sdata = sdata[1:]
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index 1a9d48f..c661bac 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -180,18 +180,12 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if rLen > 0x21 {
 		return nil, 0, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(rLen) > limit {
+	if rLen == 0 || index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 
 	sig := script[index : index+int(rLen)]
 	if rLen == 0x21 {
@@ -221,18 +215,12 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if sLen > 0x21 {
 		return nil, 0, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(sLen) > limit {
+	if sLen == 0 || index+int(sLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (sLen == 0x21 && script[index] != 0x00) || (sLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	sdata := script[index : index+int(sLen)]
 	if sLen == 0x21 {
 		sdata = sdata[1:]
@@ -304,18 +292,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if rLen > 0x21 {
 		return nil, 0, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(rLen) > limit {
+	if rLen == 0 || index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	ret.Signature = script[index : index+int(rLen)]
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
@@ -344,18 +326,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if sLen > 0x21 {
 		return nil, 0, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(sLen) > limit {
+	if sLen == 0 || index+int(sLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (sLen == 0x21 && script[index] != 0x00) || (sLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	sdata := script[index : index+int(sLen)]
 	if sLen == 0x21 {
 		sdata = sdata[1:]
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index ea881d2..33c8e99 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -180,18 +180,12 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if rLen > 0x21 {
 		return nil, 0, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(rLen) > limit {
+	if rLen == 0 || index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 
 	sig := script[index : index+int(rLen)]
 	if rLen == 0x21 {
@@ -221,18 +215,12 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if sLen > 0x21 {
 		return nil, 0, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(sLen) > limit {
+	if sLen == 0 || index+int(sLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (sLen == 0x21 && script[index] != 0x00) || (sLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	sdata := script[index : index+int(sLen)]
 	if sLen == 0x21 {
 		sdata = sdata[1:]
@@ -304,18 +292,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if rLen > 0x21 {
 		return nil, 0, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(rLen) > limit {
+	if rLen == 0 || index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	ret.Signature = script[index : index+int(rLen)]
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
@@ -344,18 +326,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if sLen > 0x21 {
 		return nil, 0, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(sLen) > limit {
+	if sLen == 0 || index+int(sLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (sLen == 0x21 && script[index] != 0x00) || (sLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	sdata := script[index : index+int(sLen)]
 	if sLen == 0x21 {
 		sdata = sdata[1:]
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 97538b5..88a2ad7 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -181,18 +181,12 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if rLen > 0x21 {
 		return nil, 0, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(rLen) > limit {
+	if rLen == 0 || index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 
 	sig := script[index : index+int(rLen)]
 	if rLen == 0x21 {
@@ -222,18 +216,12 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if sLen > 0x21 {
 		return nil, 0, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(sLen) > limit {
+	if sLen == 0 || index+int(sLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (sLen == 0x21 && script[index] != 0x00) || (sLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	sdata := script[index : index+int(sLen)]
 	if sLen == 0x21 {
 		sdata = sdata[1:]
@@ -305,18 +293,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if rLen > 0x21 {
 		return nil, 0, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(rLen) > limit {
+	if rLen == 0 || index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	ret.Signature = script[index : index+int(rLen)]
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
@@ -345,18 +327,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if sLen > 0x21 {
 		return nil, 0, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(sLen) > limit {
+	if sLen == 0 || index+int(sLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (sLen == 0x21 && script[index] != 0x00) || (sLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	sdata := script[index : index+int(sLen)]
 	if sLen == 0x21 {
 		sdata = sdata[1:]
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index 4d682ae..8bd3874 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -180,18 +180,12 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if rLen > 0x21 {
 		return nil, 0, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(rLen) > limit {
+	if rLen == 0 || index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 
 	sig := script[index : index+int(rLen)]
 	if rLen == 0x21 {
@@ -221,18 +215,12 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if sLen > 0x21 {
 		return nil, 0, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(sLen) > limit {
+	if sLen == 0 || index+int(sLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (sLen == 0x21 && script[index] != 0x00) || (sLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	sdata := script[index : index+int(sLen)]
 	if sLen == 0x21 {
 		sdata = sdata[1:]
@@ -304,18 +292,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if rLen > 0x21 {
 		return nil, 0, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(rLen) > limit {
+	if rLen == 0 || index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	ret.Signature = script[index : index+int(rLen)]
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
@@ -344,18 +326,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if sLen > 0x21 {
 		return nil, 0, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(sLen) > limit {
+	if sLen == 0 || index+int(sLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (sLen == 0x21 && script[index] != 0x00) || (sLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	sdata := script[index : index+int(sLen)]
 	if sLen == 0x21 {
 		sdata = sdata[1:]
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index 1115e0d..3577012 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -180,18 +180,12 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if rLen > 0x21 {
 		return nil, 0, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(rLen) > limit {
+	if rLen == 0 || index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 
 	sig := script[index : index+int(rLen)]
 	if rLen == 0x21 {
@@ -221,18 +215,12 @@ func decodeSignatureFromScript(script []byte) ([]byte, byte, error) {
 	if sLen > 0x21 {
 		return nil, 0, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(sLen) > limit {
+	if sLen == 0 || index+int(sLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (sLen == 0x21 && script[index] != 0x00) || (sLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	sdata := script[index : index+int(sLen)]
 	if sLen == 0x21 {
 		sdata = sdata[1:]
@@ -304,18 +292,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if rLen > 0x21 {
 		return nil, 0, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(rLen) > limit {
+	if rLen == 0 || index+int(rLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	ret.Signature = script[index : index+int(rLen)]
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
@@ -344,18 +326,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, byte, error) {
 	if sLen > 0x21 {
 		return nil, 0, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, 0, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, 0, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(sLen) > limit {
+	if sLen == 0 || index+int(sLen) > limit {
 		return nil, 0, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (sLen == 0x21 && script[index] != 0x00) || (sLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, 0, errors.New("Invalid signature data!")
+	}
 	sdata := script[index : index+int(sLen)]
 	if sLen == 0x21 {
 		sdata = sdata[1:]
-- 
2.43.0


From 08a99313f642a48f54dd4819f437a4062df09c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:06 +0000
Subject: [PATCH 030/132] fix: encoding a signature with a zero component
 panicked

---
 bitcoincashTransaction/SignaturePubkey.go | 4 ++--
 bitcoinsvTransaction/SignaturePubkey.go   | 4 ++--
 btcTransaction/SignaturePubkey.go         | 4 ++--
 cxcTransaction/SignaturePubkey.go         | 4 ++--
 hcTransaction/SignaturePubkey.go          | 4 ++--
 omniTransaction/SignaturePubkey.go        | 4 ++--
 zencashTransaction/SignaturePubkey.go     | 4 ++--
 7 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index a936b26..efceee3 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index dddd677..b8bdd20 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index c661bac..ffb255c 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index 33c8e99..ccd1831 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 88a2ad7..3fa04fd 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -58,7 +58,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -69,7 +69,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index 8bd3874..763c263 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index 3577012..030d6ed 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -57,7 +57,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -68,7 +68,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
-- 
2.43.0


From 8ee3624ff00ba0fccdec93238af5da48f56d824b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:06 +0000
Subject: [PATCH 031/132] fix: low-S values with several leading zero bytes
 came out short

---
 bitcoincashTransaction/SignaturePubkey.go | 6 ++----
 bitcoinsvTransaction/SignaturePubkey.go   | 6 ++----
 btcTransaction/SignaturePubkey.go         | 6 ++----
 cxcTransaction/SignaturePubkey.go         | 6 ++----
 hcTransaction/SignaturePubkey.go          | 6 ++----
 omniTransaction/SignaturePubkey.go        | 6 ++----
 zencashTransaction/SignaturePubkey.go     | 6 ++----
 7 files changed, 14 insertions(+), 28 deletions(-)

diff --git a/bitcoincashTransaction/SignaturePubkey.go b/bitcoincashTransaction/SignaturePubkey.go
index efceee3..ca55f13 100644
--- a/bitcoincashTransaction/SignaturePubkey.go
+++ b/bitcoincashTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/bitcoinsvTransaction/SignaturePubkey.go b/bitcoinsvTransaction/SignaturePubkey.go
index b8bdd20..1f23263 100644
--- a/bitcoinsvTransaction/SignaturePubkey.go
+++ b/bitcoinsvTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/btcTransaction/SignaturePubkey.go b/btcTransaction/SignaturePubkey.go
index ffb255c..8f75d22 100644
--- a/btcTransaction/SignaturePubkey.go
+++ b/btcTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/cxcTransaction/SignaturePubkey.go b/cxcTransaction/SignaturePubkey.go
index ccd1831..1f1d32e 100644
--- a/cxcTransaction/SignaturePubkey.go
+++ b/cxcTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/hcTransaction/SignaturePubkey.go b/hcTransaction/SignaturePubkey.go
index 3fa04fd..b4adb5c 100644
--- a/hcTransaction/SignaturePubkey.go
+++ b/hcTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/omniTransaction/SignaturePubkey.go b/omniTransaction/SignaturePubkey.go
index 763c263..263289f 100644
--- a/omniTransaction/SignaturePubkey.go
+++ b/omniTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
diff --git a/zencashTransaction/SignaturePubkey.go b/zencashTransaction/SignaturePubkey.go
index 030d6ed..ea5ccc0 100644
--- a/zencashTransaction/SignaturePubkey.go
+++ b/zencashTransaction/SignaturePubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
-- 
2.43.0


From 69d1fd4ce8c381420d00a0228f864766c2bec9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:06 +0000
Subject: [PATCH 032/132] fix: GetTxID reversed the transaction id of the
 decoded input in place

---
 bitcoincashTransaction/txUtils.go | 2 +-
 bitcoinsvTransaction/txUtils.go   | 2 +-
 btcTransaction/txUtils.go         | 2 +-
 cxcTransaction/txUtils.go         | 2 +-
 hcTransaction/txUtils.go          | 2 +-
 omniTransaction/txUtils.go        | 2 +-
 zencashTransaction/txUtils.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txUtils.go b/bitcoincashTransaction/txUtils.go
index bd720a6..9e7a7c5 100644
--- a/bitcoincashTransaction/txUtils.go
+++ b/bitcoincashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/bitcoinsvTransaction/txUtils.go b/bitcoinsvTransaction/txUtils.go
index e5af84f..bbc3217 100644
--- a/bitcoinsvTransaction/txUtils.go
+++ b/bitcoinsvTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/btcTransaction/txUtils.go b/btcTransaction/txUtils.go
index 141260c..51ade1f 100644
--- a/btcTransaction/txUtils.go
+++ b/btcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/cxcTransaction/txUtils.go b/cxcTransaction/txUtils.go
index 1d2b04b..176ba4e 100644
--- a/cxcTransaction/txUtils.go
+++ b/cxcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/hcTransaction/txUtils.go b/hcTransaction/txUtils.go
index ea4dc67..5c10266 100644
--- a/hcTransaction/txUtils.go
+++ b/hcTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/omniTransaction/txUtils.go b/omniTransaction/txUtils.go
index 0b571a3..2cfe632 100644
--- a/omniTransaction/txUtils.go
+++ b/omniTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
diff --git a/zencashTransaction/txUtils.go b/zencashTransaction/txUtils.go
index cfbdb71..6ce82e7 100644
--- a/zencashTransaction/txUtils.go
+++ b/zencashTransaction/txUtils.go
@@ -40,7 +40,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint16ToLittleEndianBytes
-- 
2.43.0


From a45934665152e4b7960ac9c9b386b7ff08d6d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:06 +0000
Subject: [PATCH 033/132] fix: multisignature addresses carried the version of
 a public key hash

---
 bitcoincashTransaction/txMultiSig.go | 2 +-
 bitcoinsvTransaction/txMultiSig.go   | 2 +-
 btcTransaction/txMultiSig.go         | 2 +-
 cxcTransaction/txMultiSig.go         | 2 +-
 hcTransaction/txMultiSig.go          | 2 +-
 omniTransaction/txMultiSig.go        | 2 +-
 zencashTransaction/txMultiSig.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 799b51c..d6ba73d 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index da9b52d..cee9daa 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 8f4b9b9..c546508 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 817a3a6..d718075 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 54812bc..bffff4e 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 0047f39..1cc1399 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -55,7 +55,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, addressPrefix AddressPrefix
 	} else {
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index d242f6c..0b04bc8 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -56,7 +56,7 @@ func CreateMultiSig(required byte, pubkeys [][]byte, SegwitON bool, addressPrefi
 		redeemHash = owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
 	}
 
-	return EncodeCheck(addressPrefix.P2PKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
+	return EncodeCheck(addressPrefix.P2WPKHPrefix, redeemHash), hex.EncodeToString(redeem), nil
 }
 
 func getMultiDetails(redeem []byte) (byte, []string, error) {
-- 
2.43.0


From 009267fa17c52bd54c9a7a4e063391ec9d01fee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:38 +0000
Subject: [PATCH 034/132] fix: counts and script lengths of 253 or more were
 truncated to one byte

---
 bitcoincashTransaction/txHash.go   |  4 +--
 bitcoincashTransaction/txIn.go     |  2 +-
 bitcoincashTransaction/txOut.go    |  2 +-
 bitcoincashTransaction/txStruct.go | 39 ++++++++++++++----------------
 bitcoincashTransaction/txUtils.go  | 39 ++++++++++++++++++++++++++++++
 bitcoinsvTransaction/txHash.go     |  4 +--
 bitcoinsvTransaction/txIn.go       |  2 +-
 bitcoinsvTransaction/txOut.go      |  2 +-
 bitcoinsvTransaction/txStruct.go   | 39 ++++++++++++++----------------
 bitcoinsvTransaction/txUtils.go    | 39 ++++++++++++++++++++++++++++++
 btcTransaction/txHash.go           |  4 +--
 btcTransaction/txIn.go             |  2 +-
 btcTransaction/txOut.go            |  2 +-
 btcTransaction/txStruct.go         | 39 ++++++++++++++----------------
 btcTransaction/txUtils.go          | 39 ++++++++++++++++++++++++++++++
 cxcTransaction/txHash.go           |  4 +--
 cxcTransaction/txIn.go             |  2 +-
 cxcTransaction/txOut.go            |  2 +-
 cxcTransaction/txStruct.go         | 39 ++++++++++++++----------------
 cxcTransaction/txUtils.go          | 39 ++++++++++++++++++++++++++++++
 hcTransaction/txHash.go            |  4 +--
 hcTransaction/txIn.go              |  2 +-
 hcTransaction/txOut.go             |  2 +-
 hcTransaction/txStruct.go          | 39 ++++++++++++++----------------
 hcTransaction/txUtils.go           | 39 ++++++++++++++++++++++++++++++
 omniTransaction/txHash.go          |  4 +--
 omniTransaction/txIn.go            |  2 +-
 omniTransaction/txOut.go           |  2 +-
 omniTransaction/txStruct.go        | 39 ++++++++++++++----------------
 omniTransaction/txUtils.go         | 39 ++++++++++++++++++++++++++++++
 zencashTransaction/txHash.go       |  4 +--
 zencashTransaction/txIn.go         |  2 +-
 zencashTransaction/txOut.go        |  2 +-
 zencashTransaction/txStruct.go     | 39 ++++++++++++++----------------
 zencashTransaction/txUtils.go      | 39 ++++++++++++++++++++++++++++++
 35 files changed, 427 insertions(+), 175 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index e13ef84..d575bdb 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -118,7 +118,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, varIntToBytes(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -162,7 +162,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, varIntToBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/bitcoincashTransaction/txIn.go b/bitcoincashTransaction/txIn.go
index eff3b46..17a1502 100644
--- a/bitcoincashTransaction/txIn.go
+++ b/bitcoincashTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, varIntToBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/bitcoincashTransaction/txOut.go b/bitcoincashTransaction/txOut.go
index c9af95c..1023df4 100644
--- a/bitcoincashTransaction/txOut.go
+++ b/bitcoincashTransaction/txOut.go
@@ -101,7 +101,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, varIntToBytes(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 4920b46..afe61c0 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -78,7 +78,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, varIntToBytes(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -87,7 +87,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, varIntToBytes(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -143,16 +143,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -239,17 +238,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -258,27 +255,27 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readVarInt(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/bitcoincashTransaction/txUtils.go b/bitcoincashTransaction/txUtils.go
index 9e7a7c5..982787a 100644
--- a/bitcoincashTransaction/txUtils.go
+++ b/bitcoincashTransaction/txUtils.go
@@ -79,6 +79,45 @@ func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
 
+//varIntToBytes encode a count or a length as variable length integer
+func varIntToBytes(data int) []byte {
+	if data < 0xFD {
+		return []byte{byte(data)}
+	} else if data <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(data))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(data))...)
+}
+
+//readVarInt decode a variable length integer, return the value and the index of the next byte
+func readVarInt(data []byte, index int) (int, int, error) {
+	if index < 0 || index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	value := int(data[index])
+	index++
+	if value == 0xFD {
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(littleEndianBytesToUint16(data[index : index+2]))
+		if value < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 2, nil
+	} else if value > 0xFD {
+		if value == 0xFF || index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(littleEndianBytesToUint32(data[index : index+4]))
+		if value <= 0xFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 4, nil
+	}
+	return value, index, nil
+}
+
 
 
 func uint16ToBigEndianBytes(data uint16) []byte {
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 99da856..779a5ef 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -119,7 +119,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, varIntToBytes(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -163,7 +163,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, varIntToBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/bitcoinsvTransaction/txIn.go b/bitcoinsvTransaction/txIn.go
index 80b7a5b..a98fe89 100644
--- a/bitcoinsvTransaction/txIn.go
+++ b/bitcoinsvTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, varIntToBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/bitcoinsvTransaction/txOut.go b/bitcoinsvTransaction/txOut.go
index 19501db..4cf7275 100644
--- a/bitcoinsvTransaction/txOut.go
+++ b/bitcoinsvTransaction/txOut.go
@@ -101,7 +101,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, varIntToBytes(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 4f3394b..216a5b0 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -78,7 +78,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, varIntToBytes(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -87,7 +87,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, varIntToBytes(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -143,16 +143,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -239,17 +238,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -258,27 +255,27 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readVarInt(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/bitcoinsvTransaction/txUtils.go b/bitcoinsvTransaction/txUtils.go
index bbc3217..3af75e4 100644
--- a/bitcoinsvTransaction/txUtils.go
+++ b/bitcoinsvTransaction/txUtils.go
@@ -79,6 +79,45 @@ func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
 
+//varIntToBytes encode a count or a length as variable length integer
+func varIntToBytes(data int) []byte {
+	if data < 0xFD {
+		return []byte{byte(data)}
+	} else if data <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(data))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(data))...)
+}
+
+//readVarInt decode a variable length integer, return the value and the index of the next byte
+func readVarInt(data []byte, index int) (int, int, error) {
+	if index < 0 || index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	value := int(data[index])
+	index++
+	if value == 0xFD {
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(littleEndianBytesToUint16(data[index : index+2]))
+		if value < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 2, nil
+	} else if value > 0xFD {
+		if value == 0xFF || index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(littleEndianBytesToUint32(data[index : index+4]))
+		if value <= 0xFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 4, nil
+	}
+	return value, index, nil
+}
+
 
 
 func uint16ToBigEndianBytes(data uint16) []byte {
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index edc1edc..cc0eb51 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -122,7 +122,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, varIntToBytes(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, varIntToBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/btcTransaction/txIn.go b/btcTransaction/txIn.go
index ded31f8..b06f842 100644
--- a/btcTransaction/txIn.go
+++ b/btcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, varIntToBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/btcTransaction/txOut.go b/btcTransaction/txOut.go
index 1d80de8..7cacc1d 100644
--- a/btcTransaction/txOut.go
+++ b/btcTransaction/txOut.go
@@ -74,7 +74,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, varIntToBytes(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index b16bb21..806f024 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, varIntToBytes(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, varIntToBytes(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -122,16 +122,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -218,17 +217,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -237,27 +234,27 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readVarInt(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/btcTransaction/txUtils.go b/btcTransaction/txUtils.go
index 51ade1f..606d68a 100644
--- a/btcTransaction/txUtils.go
+++ b/btcTransaction/txUtils.go
@@ -78,3 +78,42 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//varIntToBytes encode a count or a length as variable length integer
+func varIntToBytes(data int) []byte {
+	if data < 0xFD {
+		return []byte{byte(data)}
+	} else if data <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(data))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(data))...)
+}
+
+//readVarInt decode a variable length integer, return the value and the index of the next byte
+func readVarInt(data []byte, index int) (int, int, error) {
+	if index < 0 || index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	value := int(data[index])
+	index++
+	if value == 0xFD {
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(littleEndianBytesToUint16(data[index : index+2]))
+		if value < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 2, nil
+	} else if value > 0xFD {
+		if value == 0xFF || index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(littleEndianBytesToUint32(data[index : index+4]))
+		if value <= 0xFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 4, nil
+	}
+	return value, index, nil
+}
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index d61ed0b..62554b1 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -121,7 +121,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, varIntToBytes(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -165,7 +165,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, varIntToBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/cxcTransaction/txIn.go b/cxcTransaction/txIn.go
index da2bdb4..cdb37d7 100644
--- a/cxcTransaction/txIn.go
+++ b/cxcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, varIntToBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/cxcTransaction/txOut.go b/cxcTransaction/txOut.go
index f1dda2c..69add75 100644
--- a/cxcTransaction/txOut.go
+++ b/cxcTransaction/txOut.go
@@ -72,7 +72,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, varIntToBytes(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index b0f1750..75fb3cd 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -88,7 +88,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, varIntToBytes(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -97,7 +97,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, varIntToBytes(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -153,16 +153,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -249,17 +248,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -268,27 +265,27 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readVarInt(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/cxcTransaction/txUtils.go b/cxcTransaction/txUtils.go
index 176ba4e..54d05ee 100644
--- a/cxcTransaction/txUtils.go
+++ b/cxcTransaction/txUtils.go
@@ -78,3 +78,42 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//varIntToBytes encode a count or a length as variable length integer
+func varIntToBytes(data int) []byte {
+	if data < 0xFD {
+		return []byte{byte(data)}
+	} else if data <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(data))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(data))...)
+}
+
+//readVarInt decode a variable length integer, return the value and the index of the next byte
+func readVarInt(data []byte, index int) (int, int, error) {
+	if index < 0 || index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	value := int(data[index])
+	index++
+	if value == 0xFD {
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(littleEndianBytesToUint16(data[index : index+2]))
+		if value < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 2, nil
+	} else if value > 0xFD {
+		if value == 0xFF || index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(littleEndianBytesToUint32(data[index : index+4]))
+		if value <= 0xFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 4, nil
+	}
+	return value, index, nil
+}
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index 2a046ee..d3d7c56 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -122,7 +122,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, varIntToBytes(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, varIntToBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/hcTransaction/txIn.go b/hcTransaction/txIn.go
index 7dba474..85c5083 100644
--- a/hcTransaction/txIn.go
+++ b/hcTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, varIntToBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/hcTransaction/txOut.go b/hcTransaction/txOut.go
index f028e0f..0dfc0df 100644
--- a/hcTransaction/txOut.go
+++ b/hcTransaction/txOut.go
@@ -72,7 +72,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, varIntToBytes(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index e2dc2f9..dba3d3d 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, varIntToBytes(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, varIntToBytes(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -122,16 +122,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -218,17 +217,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -237,27 +234,27 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readVarInt(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/hcTransaction/txUtils.go b/hcTransaction/txUtils.go
index 5c10266..f4af76e 100644
--- a/hcTransaction/txUtils.go
+++ b/hcTransaction/txUtils.go
@@ -78,3 +78,42 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//varIntToBytes encode a count or a length as variable length integer
+func varIntToBytes(data int) []byte {
+	if data < 0xFD {
+		return []byte{byte(data)}
+	} else if data <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(data))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(data))...)
+}
+
+//readVarInt decode a variable length integer, return the value and the index of the next byte
+func readVarInt(data []byte, index int) (int, int, error) {
+	if index < 0 || index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	value := int(data[index])
+	index++
+	if value == 0xFD {
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(littleEndianBytesToUint16(data[index : index+2]))
+		if value < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 2, nil
+	} else if value > 0xFD {
+		if value == 0xFF || index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(littleEndianBytesToUint32(data[index : index+4]))
+		if value <= 0xFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 4, nil
+	}
+	return value, index, nil
+}
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index d482fb6..5198400 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -121,7 +121,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, varIntToBytes(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -165,7 +165,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, varIntToBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/omniTransaction/txIn.go b/omniTransaction/txIn.go
index 3354027..c348357 100644
--- a/omniTransaction/txIn.go
+++ b/omniTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, varIntToBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index 9b7f5dc..cd9b90e 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -75,7 +75,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, varIntToBytes(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 8a05cc0..1082937 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, varIntToBytes(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, varIntToBytes(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -122,16 +122,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -218,17 +217,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -237,27 +234,27 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readVarInt(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/omniTransaction/txUtils.go b/omniTransaction/txUtils.go
index 2cfe632..c8cdc94 100644
--- a/omniTransaction/txUtils.go
+++ b/omniTransaction/txUtils.go
@@ -99,6 +99,45 @@ func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
 
+//varIntToBytes encode a count or a length as variable length integer
+func varIntToBytes(data int) []byte {
+	if data < 0xFD {
+		return []byte{byte(data)}
+	} else if data <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(data))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(data))...)
+}
+
+//readVarInt decode a variable length integer, return the value and the index of the next byte
+func readVarInt(data []byte, index int) (int, int, error) {
+	if index < 0 || index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	value := int(data[index])
+	index++
+	if value == 0xFD {
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(littleEndianBytesToUint16(data[index : index+2]))
+		if value < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 2, nil
+	} else if value > 0xFD {
+		if value == 0xFF || index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(littleEndianBytesToUint32(data[index : index+4]))
+		if value <= 0xFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 4, nil
+	}
+	return value, index, nil
+}
+
 func uint64ToBigEndianBytes(data uint64) []byte {
 	tmp := [8]byte{}
 	binary.BigEndian.PutUint64(tmp[:], data)
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index cfa6039..5d5832e 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -122,7 +122,7 @@ func (t Transaction) calcSegwitSerializationHashes() ([]byte, []byte, []byte) {
 	}
 	for _, vout := range t.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, varIntToBytes(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -166,7 +166,7 @@ func (t Transaction) getSegwitBytesForSig(reddemBytes, txid, vout, sequence []by
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, varIntToBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	if amount == 0 {
diff --git a/zencashTransaction/txIn.go b/zencashTransaction/txIn.go
index 6805de4..235d322 100644
--- a/zencashTransaction/txIn.go
+++ b/zencashTransaction/txIn.go
@@ -79,7 +79,7 @@ func (in TxIn) toBytes(SegwitON bool) ([]byte, error) {
 		if in.scriptPub == nil && in.scriptSig == nil {
 			ret = append(ret, byte(0x00))
 		} else {
-			ret = append(ret, byte(len(in.scriptPub)))
+			ret = append(ret, varIntToBytes(len(in.scriptPub))...)
 			ret = append(ret, in.scriptPub...)
 		}
 	} else if in.inType == TypeP2PKH {
diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 73ea817..9e3c9df 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -99,7 +99,7 @@ func (out TxOut) toBytes() ([]byte, error) {
 
 	ret := []byte{}
 	ret = append(ret, out.amount...)
-	ret = append(ret, byte(len(out.lockScript)))
+	ret = append(ret, varIntToBytes(len(out.lockScript))...)
 	ret = append(ret, out.lockScript...)
 
 	return ret, nil
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 2464de3..d9e82e7 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -57,7 +57,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, SegWitSymbol, SegWitVersion)
 	}
 
-	ret = append(ret, byte(len(t.Vins)))
+	ret = append(ret, varIntToBytes(len(t.Vins))...)
 	for _, in := range t.Vins {
 		inBytes, err := in.toBytes(SegwitON)
 		if err != nil {
@@ -66,7 +66,7 @@ func (t Transaction) encodeToBytes(SegwitON bool) ([]byte, error) {
 		ret = append(ret, inBytes...)
 	}
 
-	ret = append(ret, byte(len(t.Vouts)))
+	ret = append(ret, varIntToBytes(len(t.Vouts))...)
 
 	for _, out := range t.Vouts {
 		outBytes, err := out.toBytes()
@@ -122,16 +122,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 	if numOfVins == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -218,17 +217,15 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	numOfVouts := txBytes[index]
-	index++
 	if numOfVouts == 0 {
 		return nil, errors.New("Invalid transaction data!")
 	}
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -237,27 +234,27 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readVarInt(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
 		if lockScriptLen == 0 {
 			return nil, errors.New("Invalid transaction data!")
 		}
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if rawTx.Witness {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
diff --git a/zencashTransaction/txUtils.go b/zencashTransaction/txUtils.go
index 6ce82e7..c155c3b 100644
--- a/zencashTransaction/txUtils.go
+++ b/zencashTransaction/txUtils.go
@@ -78,3 +78,42 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//varIntToBytes encode a count or a length as variable length integer
+func varIntToBytes(data int) []byte {
+	if data < 0xFD {
+		return []byte{byte(data)}
+	} else if data <= 0xFFFF {
+		return append([]byte{0xFD}, uint16ToLittleEndianBytes(uint16(data))...)
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(data))...)
+}
+
+//readVarInt decode a variable length integer, return the value and the index of the next byte
+func readVarInt(data []byte, index int) (int, int, error) {
+	if index < 0 || index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	value := int(data[index])
+	index++
+	if value == 0xFD {
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(littleEndianBytesToUint16(data[index : index+2]))
+		if value < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 2, nil
+	} else if value > 0xFD {
+		if value == 0xFF || index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(littleEndianBytesToUint32(data[index : index+4]))
+		if value <= 0xFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 4, nil
+	}
+	return value, index, nil
+}
-- 
2.43.0


From 8de0f53d5ae85b51f0f50b1d6c1ae2772d3724c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:38 +0000
Subject: [PATCH 035/132] fix: decoding a transaction cut inside an input
 panicked

---
 bitcoincashTransaction/txStruct.go | 5 ++++-
 bitcoinsvTransaction/txStruct.go   | 5 ++++-
 btcTransaction/txStruct.go         | 5 ++++-
 cxcTransaction/txStruct.go         | 5 ++++-
 hcTransaction/txStruct.go          | 5 ++++-
 omniTransaction/txStruct.go        | 5 ++++-
 zencashTransaction/txStruct.go     | 5 ++++-
 7 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index afe61c0..6108eb4 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -217,7 +217,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit || scriptLen < 0xFD {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -233,6 +233,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 216a5b0..34b5158 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -217,7 +217,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit || scriptLen < 0xFD {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -233,6 +233,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index 806f024..c9ddbec 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -196,7 +196,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit || scriptLen < 0xFD {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -212,6 +212,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index 75fb3cd..6b23c84 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -227,7 +227,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit || scriptLen < 0xFD {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -243,6 +243,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index dba3d3d..d613f41 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -196,7 +196,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit || scriptLen < 0xFD {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -212,6 +212,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index 1082937..cfb270b 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -196,7 +196,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit || scriptLen < 0xFD {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -212,6 +212,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index d9e82e7..27e07f2 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -196,7 +196,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				scriptLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-				if index+scriptLen > limit {
+				if index+scriptLen+2 > limit || scriptLen < 0xFD {
 					return nil, errors.New("Invalid transaction data length!")
 				}
 				tmpTxIn.scriptMulti = append([]byte{0xFD}, txBytes[index:index+scriptLen+2]...)
@@ -212,6 +212,9 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 		}
 
+		if index+4 > limit {
+			return nil, errors.New("Invalid transaction data length!")
+		}
 		tmpTxIn.sequence = txBytes[index : index+4]
 		index += 4
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
-- 
2.43.0


From bf70d6669045362947e6f11a4b4dfbf1cc0c607a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:38 +0000
Subject: [PATCH 036/132] fix: short multisignature unlocking scripts were
 decoded as a single signature

---
 bitcoincashTransaction/txStruct.go | 2 +-
 bitcoinsvTransaction/txStruct.go   | 2 +-
 btcTransaction/txStruct.go         | 2 +-
 cxcTransaction/txStruct.go         | 2 +-
 hcTransaction/txStruct.go          | 2 +-
 omniTransaction/txStruct.go        | 2 +-
 zencashTransaction/txStruct.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index 6108eb4..e625d52 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -200,7 +200,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 34b5158..5d431cd 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -200,7 +200,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index c9ddbec..1d766d0 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -179,7 +179,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index 6b23c84..b5c793f 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -210,7 +210,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index d613f41..99118db 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -179,7 +179,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index cfb270b..c5cea44 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -179,7 +179,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 27e07f2..22a953a 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -179,7 +179,7 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 			}
 			tmpTxIn.scriptPub = append([]byte{0x23}, txBytes[index:index+scriptLen]...)
 			index += int(scriptLen)
-		} else if scriptLen <= 0x6C {
+		} else if scriptLen <= 0x6C && index < limit && txBytes[index] != 0x00 {
 			tmpTxIn.inType = TypeP2PKH
 			if index+scriptLen > limit {
 				return nil, errors.New("Invalid transaction data length!")
-- 
2.43.0


From 89dfcfa8bdeb81ed8b2cd5bcc3156237292741b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:38 +0000
Subject: [PATCH 037/132] fix: malformed multisignature scripts panicked or
 were accepted

---
 bitcoincashTransaction/txMultiSig.go | 5 ++++-
 bitcoinsvTransaction/txMultiSig.go   | 5 ++++-
 btcTransaction/txMultiSig.go         | 5 ++++-
 cxcTransaction/txMultiSig.go         | 5 ++++-
 hcTransaction/txMultiSig.go          | 5 ++++-
 omniTransaction/txMultiSig.go        | 5 ++++-
 zencashTransaction/txMultiSig.go     | 5 ++++-
 7 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index d6ba73d..61d40eb 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -93,7 +93,7 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	}
 	total := redeem[index] + 1 - OpCode_1
 
-	if total != byte(len(pubkeys)) || total < nRequired {
+	if total != byte(len(pubkeys)) || total < nRequired || index+2 != limit || redeem[index+1] != OpCheckMultiSig {
 		return 0, nil, errors.New("Invalid redeem script for multisig UTXO!")
 	}
 
@@ -200,6 +200,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
+	if pubkeys < int(required) || redeemLen != 3+pubkeys*0x22 {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index cee9daa..6e9af76 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -93,7 +93,7 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	}
 	total := redeem[index] + 1 - OpCode_1
 
-	if total != byte(len(pubkeys)) || total < nRequired {
+	if total != byte(len(pubkeys)) || total < nRequired || index+2 != limit || redeem[index+1] != OpCheckMultiSig {
 		return 0, nil, errors.New("Invalid redeem script for multisig UTXO!")
 	}
 
@@ -200,6 +200,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
+	if pubkeys < int(required) || redeemLen != 3+pubkeys*0x22 {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index c546508..6fca90b 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -93,7 +93,7 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	}
 	total := redeem[index] + 1 - OpCode_1
 
-	if total != byte(len(pubkeys)) || total < nRequired {
+	if total != byte(len(pubkeys)) || total < nRequired || index+2 != limit || redeem[index+1] != OpCheckMultiSig {
 		return 0, nil, errors.New("Invalid redeem script for multisig UTXO!")
 	}
 
@@ -200,6 +200,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
+	if pubkeys < int(required) || redeemLen != 3+pubkeys*0x22 {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index d718075..0d9aa50 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -93,7 +93,7 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	}
 	total := redeem[index] + 1 - OpCode_1
 
-	if total != byte(len(pubkeys)) || total < nRequired {
+	if total != byte(len(pubkeys)) || total < nRequired || index+2 != limit || redeem[index+1] != OpCheckMultiSig {
 		return 0, nil, errors.New("Invalid redeem script for multisig UTXO!")
 	}
 
@@ -200,6 +200,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
+	if pubkeys < int(required) || redeemLen != 3+pubkeys*0x22 {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index bffff4e..8c30164 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -93,7 +93,7 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	}
 	total := redeem[index] + 1 - OpCode_1
 
-	if total != byte(len(pubkeys)) || total < nRequired {
+	if total != byte(len(pubkeys)) || total < nRequired || index+2 != limit || redeem[index+1] != OpCheckMultiSig {
 		return 0, nil, errors.New("Invalid redeem script for multisig UTXO!")
 	}
 
@@ -200,6 +200,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
+	if pubkeys < int(required) || redeemLen != 3+pubkeys*0x22 {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index 1cc1399..f283104 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -92,7 +92,7 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	}
 	total := redeem[index] + 1 - OpCode_1
 
-	if total != byte(len(pubkeys)) || total < nRequired {
+	if total != byte(len(pubkeys)) || total < nRequired || index+2 != limit || redeem[index+1] != OpCheckMultiSig {
 		return 0, nil, errors.New("Invalid redeem script for multisig UTXO!")
 	}
 
@@ -199,6 +199,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
+	if pubkeys < int(required) || redeemLen != 3+pubkeys*0x22 {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index 0b04bc8..ba891ef 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -93,7 +93,7 @@ func getMultiDetails(redeem []byte) (byte, []string, error) {
 	}
 	total := redeem[index] + 1 - OpCode_1
 
-	if total != byte(len(pubkeys)) || total < nRequired {
+	if total != byte(len(pubkeys)) || total < nRequired || index+2 != limit || redeem[index+1] != OpCheckMultiSig {
 		return 0, nil, errors.New("Invalid redeem script for multisig UTXO!")
 	}
 
@@ -200,6 +200,9 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 		return nil, nil, errors.New("Invalid multisig script data!")
 	}
 	pubkeys := int(script[len(script)-2]) + 1 - int(OpCode_1)
+	if pubkeys < int(required) || redeemLen != 3+pubkeys*0x22 {
+		return nil, nil, errors.New("Invalid multisig script data!")
+	}
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-- 
2.43.0


From 63add1d6869d31c5f2798853376e01c953a85a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:38 +0000
Subject: [PATCH 038/132] fix: witness multisignature spends were only correct
 for two signatures and redeem scripts below 76 bytes

---
 bitcoincashTransaction/txHash.go   |  4 +-
 bitcoincashTransaction/txIn.go     |  1 -
 bitcoincashTransaction/txStruct.go | 93 +++++++++---------------------
 bitcoinsvTransaction/txHash.go     |  4 +-
 bitcoinsvTransaction/txIn.go       |  1 -
 bitcoinsvTransaction/txStruct.go   | 93 +++++++++---------------------
 btcTransaction/txHash.go           |  4 +-
 btcTransaction/txIn.go             |  1 -
 btcTransaction/txStruct.go         | 93 +++++++++---------------------
 cxcTransaction/txHash.go           |  4 +-
 cxcTransaction/txIn.go             |  1 -
 cxcTransaction/txStruct.go         | 93 +++++++++---------------------
 hcTransaction/txHash.go            |  4 +-
 hcTransaction/txIn.go              |  1 -
 hcTransaction/txStruct.go          | 93 +++++++++---------------------
 omniTransaction/txHash.go          |  4 +-
 omniTransaction/txIn.go            |  1 -
 omniTransaction/txStruct.go        | 93 +++++++++---------------------
 zencashTransaction/txHash.go       |  4 +-
 zencashTransaction/txIn.go         |  1 -
 zencashTransaction/txStruct.go     | 93 +++++++++---------------------
 21 files changed, 210 insertions(+), 476 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index d575bdb..fb9d0af 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -322,7 +322,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(varIntToBytes(redeemLen), ret...)
 	}
 
 	count = 0
@@ -348,6 +348,8 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		ret = append(varIntToBytes(int(t.NRequired)+2), ret...)
 	}
 
 	return ret, nil
diff --git a/bitcoincashTransaction/txIn.go b/bitcoincashTransaction/txIn.go
index 17a1502..4823ac4 100644
--- a/bitcoincashTransaction/txIn.go
+++ b/bitcoincashTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/bitcoincashTransaction/txStruct.go b/bitcoincashTransaction/txStruct.go
index e625d52..87c346f 100644
--- a/bitcoincashTransaction/txStruct.go
+++ b/bitcoincashTransaction/txStruct.go
@@ -306,88 +306,49 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				index++
-				if !SegwitON {
-					scriptLen := int(txBytes[index])
-					if scriptLen == 0xFD {
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						scriptLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
-						index += 3
-					} else if scriptLen > 0xFD {
-						return nil, errors.New("Invalid transaction data!")
-					} else {
-						index++
-					}
+				items, next, err := readVarInt(txBytes, index)
+				if err != nil {
+					return nil, err
 				}
-
-				if txBytes[index] != 0x00 {
+				index = next
+				if items < 3 || index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
-				for {
-					if index+2 > limit {
+				for j := 0; j < items-2; j++ {
+					if index+1 > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					if txBytes[index+1] != 0x30 {
-						break
-					}
-					sigLen := txBytes[index]
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
-					index++
-					if index+int(sigLen) > limit {
+					sigLen := int(txBytes[index])
+					if sigLen >= 0xFD || index+1+sigLen > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
-					index += int(sigLen)
-				}
-				if index+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				redeemLen := 0
-				if !SegwitON {
-					if txBytes[index] == OpPushData1 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1)
-						index++
-						if index+1 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					} else if txBytes[index] == OpPushData2 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
-						index++
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+2]...)
-						index += 2
-					} else {
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					}
-				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+1+sigLen]...)
+					index += 1 + sigLen
 				}
 
-				if index+int(redeemLen) > limit {
+				redeemLen, next, err := readVarInt(txBytes, index)
+				if err != nil {
+					return nil, err
+				}
+				index = next
+				if redeemLen == 0 || redeemLen > MaxScriptElementSize || index+redeemLen > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
+				if txBytes[index+redeemLen-1] != OpCheckMultiSig {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
+				if redeemLen > 0xFF {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, uint16ToLittleEndianBytes(uint16(redeemLen))...)
+				} else if redeemLen >= 0x4C {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1, byte(redeemLen))
+				} else {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, byte(redeemLen))
+				}
+				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+redeemLen]...)
 				index += redeemLen
 			}
 		}
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 779a5ef..47ebe7c 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -323,7 +323,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(varIntToBytes(redeemLen), ret...)
 	}
 
 	count = 0
@@ -349,6 +349,8 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		ret = append(varIntToBytes(int(t.NRequired)+2), ret...)
 	}
 
 	return ret, nil
diff --git a/bitcoinsvTransaction/txIn.go b/bitcoinsvTransaction/txIn.go
index a98fe89..fa7ed22 100644
--- a/bitcoinsvTransaction/txIn.go
+++ b/bitcoinsvTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/bitcoinsvTransaction/txStruct.go b/bitcoinsvTransaction/txStruct.go
index 5d431cd..8c0bf09 100644
--- a/bitcoinsvTransaction/txStruct.go
+++ b/bitcoinsvTransaction/txStruct.go
@@ -306,88 +306,49 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				index++
-				if !SegwitON {
-					scriptLen := int(txBytes[index])
-					if scriptLen == 0xFD {
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						scriptLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
-						index += 3
-					} else if scriptLen > 0xFD {
-						return nil, errors.New("Invalid transaction data!")
-					} else {
-						index++
-					}
+				items, next, err := readVarInt(txBytes, index)
+				if err != nil {
+					return nil, err
 				}
-
-				if txBytes[index] != 0x00 {
+				index = next
+				if items < 3 || index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
-				for {
-					if index+2 > limit {
+				for j := 0; j < items-2; j++ {
+					if index+1 > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					if txBytes[index+1] != 0x30 {
-						break
-					}
-					sigLen := txBytes[index]
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
-					index++
-					if index+int(sigLen) > limit {
+					sigLen := int(txBytes[index])
+					if sigLen >= 0xFD || index+1+sigLen > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
-					index += int(sigLen)
-				}
-				if index+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				redeemLen := 0
-				if !SegwitON {
-					if txBytes[index] == OpPushData1 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1)
-						index++
-						if index+1 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					} else if txBytes[index] == OpPushData2 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
-						index++
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+2]...)
-						index += 2
-					} else {
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					}
-				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+1+sigLen]...)
+					index += 1 + sigLen
 				}
 
-				if index+int(redeemLen) > limit {
+				redeemLen, next, err := readVarInt(txBytes, index)
+				if err != nil {
+					return nil, err
+				}
+				index = next
+				if redeemLen == 0 || redeemLen > MaxScriptElementSize || index+redeemLen > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
+				if txBytes[index+redeemLen-1] != OpCheckMultiSig {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
+				if redeemLen > 0xFF {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, uint16ToLittleEndianBytes(uint16(redeemLen))...)
+				} else if redeemLen >= 0x4C {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1, byte(redeemLen))
+				} else {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, byte(redeemLen))
+				}
+				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+redeemLen]...)
 				index += redeemLen
 			}
 		}
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index cc0eb51..bbe5a9a 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -326,7 +326,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(varIntToBytes(redeemLen), ret...)
 	}
 
 	count = 0
@@ -352,6 +352,8 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		ret = append(varIntToBytes(int(t.NRequired)+2), ret...)
 	}
 
 	return ret, nil
diff --git a/btcTransaction/txIn.go b/btcTransaction/txIn.go
index b06f842..095b890 100644
--- a/btcTransaction/txIn.go
+++ b/btcTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/btcTransaction/txStruct.go b/btcTransaction/txStruct.go
index 1d766d0..bf09314 100644
--- a/btcTransaction/txStruct.go
+++ b/btcTransaction/txStruct.go
@@ -285,88 +285,49 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				index++
-				if !SegwitON {
-					scriptLen := int(txBytes[index])
-					if scriptLen == 0xFD {
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						scriptLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
-						index += 3
-					} else if scriptLen > 0xFD {
-						return nil, errors.New("Invalid transaction data!")
-					} else {
-						index++
-					}
+				items, next, err := readVarInt(txBytes, index)
+				if err != nil {
+					return nil, err
 				}
-
-				if txBytes[index] != 0x00 {
+				index = next
+				if items < 3 || index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
-				for {
-					if index+2 > limit {
+				for j := 0; j < items-2; j++ {
+					if index+1 > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					if txBytes[index+1] != 0x30 {
-						break
-					}
-					sigLen := txBytes[index]
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
-					index++
-					if index+int(sigLen) > limit {
+					sigLen := int(txBytes[index])
+					if sigLen >= 0xFD || index+1+sigLen > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
-					index += int(sigLen)
-				}
-				if index+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				redeemLen := 0
-				if !SegwitON {
-					if txBytes[index] == OpPushData1 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1)
-						index++
-						if index+1 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					} else if txBytes[index] == OpPushData2 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
-						index++
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+2]...)
-						index += 2
-					} else {
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					}
-				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+1+sigLen]...)
+					index += 1 + sigLen
 				}
 
-				if index+int(redeemLen) > limit {
+				redeemLen, next, err := readVarInt(txBytes, index)
+				if err != nil {
+					return nil, err
+				}
+				index = next
+				if redeemLen == 0 || redeemLen > MaxScriptElementSize || index+redeemLen > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
+				if txBytes[index+redeemLen-1] != OpCheckMultiSig {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
+				if redeemLen > 0xFF {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, uint16ToLittleEndianBytes(uint16(redeemLen))...)
+				} else if redeemLen >= 0x4C {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1, byte(redeemLen))
+				} else {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, byte(redeemLen))
+				}
+				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+redeemLen]...)
 				index += redeemLen
 			}
 		}
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index 62554b1..66077f2 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -325,7 +325,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(varIntToBytes(redeemLen), ret...)
 	}
 
 	count = 0
@@ -351,6 +351,8 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		ret = append(varIntToBytes(int(t.NRequired)+2), ret...)
 	}
 
 	return ret, nil
diff --git a/cxcTransaction/txIn.go b/cxcTransaction/txIn.go
index cdb37d7..c6c56e3 100644
--- a/cxcTransaction/txIn.go
+++ b/cxcTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/cxcTransaction/txStruct.go b/cxcTransaction/txStruct.go
index b5c793f..596cbc5 100644
--- a/cxcTransaction/txStruct.go
+++ b/cxcTransaction/txStruct.go
@@ -316,88 +316,49 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				index++
-				if !SegwitON {
-					scriptLen := int(txBytes[index])
-					if scriptLen == 0xFD {
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						scriptLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
-						index += 3
-					} else if scriptLen > 0xFD {
-						return nil, errors.New("Invalid transaction data!")
-					} else {
-						index++
-					}
+				items, next, err := readVarInt(txBytes, index)
+				if err != nil {
+					return nil, err
 				}
-
-				if txBytes[index] != 0x00 {
+				index = next
+				if items < 3 || index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
-				for {
-					if index+2 > limit {
+				for j := 0; j < items-2; j++ {
+					if index+1 > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					if txBytes[index+1] != 0x30 {
-						break
-					}
-					sigLen := txBytes[index]
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
-					index++
-					if index+int(sigLen) > limit {
+					sigLen := int(txBytes[index])
+					if sigLen >= 0xFD || index+1+sigLen > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
-					index += int(sigLen)
-				}
-				if index+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				redeemLen := 0
-				if !SegwitON {
-					if txBytes[index] == OpPushData1 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1)
-						index++
-						if index+1 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					} else if txBytes[index] == OpPushData2 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
-						index++
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+2]...)
-						index += 2
-					} else {
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					}
-				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+1+sigLen]...)
+					index += 1 + sigLen
 				}
 
-				if index+int(redeemLen) > limit {
+				redeemLen, next, err := readVarInt(txBytes, index)
+				if err != nil {
+					return nil, err
+				}
+				index = next
+				if redeemLen == 0 || redeemLen > MaxScriptElementSize || index+redeemLen > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
+				if txBytes[index+redeemLen-1] != OpCheckMultiSig {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
+				if redeemLen > 0xFF {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, uint16ToLittleEndianBytes(uint16(redeemLen))...)
+				} else if redeemLen >= 0x4C {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1, byte(redeemLen))
+				} else {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, byte(redeemLen))
+				}
+				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+redeemLen]...)
 				index += redeemLen
 			}
 		}
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index d3d7c56..ba6dda8 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -326,7 +326,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(varIntToBytes(redeemLen), ret...)
 	}
 
 	count = 0
@@ -352,6 +352,8 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		ret = append(varIntToBytes(int(t.NRequired)+2), ret...)
 	}
 
 	return ret, nil
diff --git a/hcTransaction/txIn.go b/hcTransaction/txIn.go
index 85c5083..5b5a751 100644
--- a/hcTransaction/txIn.go
+++ b/hcTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/hcTransaction/txStruct.go b/hcTransaction/txStruct.go
index 99118db..3c8b9ec 100644
--- a/hcTransaction/txStruct.go
+++ b/hcTransaction/txStruct.go
@@ -285,88 +285,49 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				index++
-				if !SegwitON {
-					scriptLen := int(txBytes[index])
-					if scriptLen == 0xFD {
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						scriptLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
-						index += 3
-					} else if scriptLen > 0xFD {
-						return nil, errors.New("Invalid transaction data!")
-					} else {
-						index++
-					}
+				items, next, err := readVarInt(txBytes, index)
+				if err != nil {
+					return nil, err
 				}
-
-				if txBytes[index] != 0x00 {
+				index = next
+				if items < 3 || index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
-				for {
-					if index+2 > limit {
+				for j := 0; j < items-2; j++ {
+					if index+1 > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					if txBytes[index+1] != 0x30 {
-						break
-					}
-					sigLen := txBytes[index]
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
-					index++
-					if index+int(sigLen) > limit {
+					sigLen := int(txBytes[index])
+					if sigLen >= 0xFD || index+1+sigLen > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
-					index += int(sigLen)
-				}
-				if index+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				redeemLen := 0
-				if !SegwitON {
-					if txBytes[index] == OpPushData1 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1)
-						index++
-						if index+1 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					} else if txBytes[index] == OpPushData2 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
-						index++
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+2]...)
-						index += 2
-					} else {
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					}
-				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+1+sigLen]...)
+					index += 1 + sigLen
 				}
 
-				if index+int(redeemLen) > limit {
+				redeemLen, next, err := readVarInt(txBytes, index)
+				if err != nil {
+					return nil, err
+				}
+				index = next
+				if redeemLen == 0 || redeemLen > MaxScriptElementSize || index+redeemLen > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
+				if txBytes[index+redeemLen-1] != OpCheckMultiSig {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
+				if redeemLen > 0xFF {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, uint16ToLittleEndianBytes(uint16(redeemLen))...)
+				} else if redeemLen >= 0x4C {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1, byte(redeemLen))
+				} else {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, byte(redeemLen))
+				}
+				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+redeemLen]...)
 				index += redeemLen
 			}
 		}
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index 5198400..18d51e6 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -325,7 +325,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(varIntToBytes(redeemLen), ret...)
 	}
 
 	count = 0
@@ -351,6 +351,8 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		ret = append(varIntToBytes(int(t.NRequired)+2), ret...)
 	}
 
 	return ret, nil
diff --git a/omniTransaction/txIn.go b/omniTransaction/txIn.go
index c348357..065c9f8 100644
--- a/omniTransaction/txIn.go
+++ b/omniTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/omniTransaction/txStruct.go b/omniTransaction/txStruct.go
index c5cea44..9343436 100644
--- a/omniTransaction/txStruct.go
+++ b/omniTransaction/txStruct.go
@@ -285,88 +285,49 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				index++
-				if !SegwitON {
-					scriptLen := int(txBytes[index])
-					if scriptLen == 0xFD {
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						scriptLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
-						index += 3
-					} else if scriptLen > 0xFD {
-						return nil, errors.New("Invalid transaction data!")
-					} else {
-						index++
-					}
+				items, next, err := readVarInt(txBytes, index)
+				if err != nil {
+					return nil, err
 				}
-
-				if txBytes[index] != 0x00 {
+				index = next
+				if items < 3 || index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
-				for {
-					if index+2 > limit {
+				for j := 0; j < items-2; j++ {
+					if index+1 > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					if txBytes[index+1] != 0x30 {
-						break
-					}
-					sigLen := txBytes[index]
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
-					index++
-					if index+int(sigLen) > limit {
+					sigLen := int(txBytes[index])
+					if sigLen >= 0xFD || index+1+sigLen > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
-					index += int(sigLen)
-				}
-				if index+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				redeemLen := 0
-				if !SegwitON {
-					if txBytes[index] == OpPushData1 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1)
-						index++
-						if index+1 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					} else if txBytes[index] == OpPushData2 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
-						index++
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+2]...)
-						index += 2
-					} else {
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					}
-				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+1+sigLen]...)
+					index += 1 + sigLen
 				}
 
-				if index+int(redeemLen) > limit {
+				redeemLen, next, err := readVarInt(txBytes, index)
+				if err != nil {
+					return nil, err
+				}
+				index = next
+				if redeemLen == 0 || redeemLen > MaxScriptElementSize || index+redeemLen > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
+				if txBytes[index+redeemLen-1] != OpCheckMultiSig {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
+				if redeemLen > 0xFF {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, uint16ToLittleEndianBytes(uint16(redeemLen))...)
+				} else if redeemLen >= 0x4C {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1, byte(redeemLen))
+				} else {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, byte(redeemLen))
+				}
+				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+redeemLen]...)
 				index += redeemLen
 			}
 		}
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index 5d5832e..f6c62b0 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -327,7 +327,7 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			return nil, errors.New("MultiSig redeem data is too long!")
 		}
 	} else {
-		ret = append([]byte{byte(redeemLen)}, ret...)
+		ret = append(varIntToBytes(redeemLen), ret...)
 	}
 
 	count = 0
@@ -353,6 +353,8 @@ func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 			ret = append(uint16ToLittleEndianBytes(uint16(length)), ret...)
 			ret = append([]byte{0xFD}, ret...)
 		}
+	} else {
+		ret = append(varIntToBytes(int(t.NRequired)+2), ret...)
 	}
 
 	return ret, nil
diff --git a/zencashTransaction/txIn.go b/zencashTransaction/txIn.go
index 235d322..0eaf34c 100644
--- a/zencashTransaction/txIn.go
+++ b/zencashTransaction/txIn.go
@@ -115,7 +115,6 @@ func (in TxIn) toSegwitBytes() ([]byte, error) {
 		ret = append(ret, 0x02)
 		ret = append(ret, in.scriptSig...)
 	} else if in.inType == TypeMultiSig {
-		ret = append(ret, 0x04)
 		ret = append(ret, in.scriptMulti...)
 	} else {
 		return nil, errors.New("Unknown type of transaction!")
diff --git a/zencashTransaction/txStruct.go b/zencashTransaction/txStruct.go
index 22a953a..dfda8d6 100644
--- a/zencashTransaction/txStruct.go
+++ b/zencashTransaction/txStruct.go
@@ -285,88 +285,49 @@ func DecodeRawTransaction(txBytes []byte, SegwitON bool) (*Transaction, error) {
 				if !SegwitON {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index] != 0x04 {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				index++
-				if !SegwitON {
-					scriptLen := int(txBytes[index])
-					if scriptLen == 0xFD {
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						scriptLen = int(littleEndianBytesToUint16(txBytes[index+1 : index+3]))
-						index += 3
-					} else if scriptLen > 0xFD {
-						return nil, errors.New("Invalid transaction data!")
-					} else {
-						index++
-					}
+				items, next, err := readVarInt(txBytes, index)
+				if err != nil {
+					return nil, err
 				}
-
-				if txBytes[index] != 0x00 {
+				index = next
+				if items < 3 || index+1 > limit || txBytes[index] != 0x00 {
 					return nil, errors.New("Invalid transaction data!")
 				}
 				rawTx.Vins[i].scriptMulti = []byte{0x00}
 				index++
 
-				for {
-					if index+2 > limit {
+				for j := 0; j < items-2; j++ {
+					if index+1 > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					if txBytes[index+1] != 0x30 {
-						break
-					}
-					sigLen := txBytes[index]
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, sigLen)
-					index++
-					if index+int(sigLen) > limit {
+					sigLen := int(txBytes[index])
+					if sigLen >= 0xFD || index+1+sigLen > limit {
 						return nil, errors.New("Invalid transaction data!")
 					}
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(sigLen)]...)
-					index += int(sigLen)
-				}
-				if index+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				redeemLen := 0
-				if !SegwitON {
-					if txBytes[index] == OpPushData1 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1)
-						index++
-						if index+1 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					} else if txBytes[index] == OpPushData2 {
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
-						index++
-						if index+2 > limit {
-							return nil, errors.New("Invalid transaction data!")
-						}
-						redeemLen = int(littleEndianBytesToUint16(txBytes[index : index+2]))
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+2]...)
-						index += 2
-					} else {
-						redeemLen = int(txBytes[index])
-						rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-						index++
-					}
-				} else {
-					redeemLen = int(txBytes[index])
-					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index])
-					index++
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+1+sigLen]...)
+					index += 1 + sigLen
 				}
 
-				if index+int(redeemLen) > limit {
+				redeemLen, next, err := readVarInt(txBytes, index)
+				if err != nil {
+					return nil, err
+				}
+				index = next
+				if redeemLen == 0 || redeemLen > MaxScriptElementSize || index+redeemLen > limit {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				if txBytes[index+int(redeemLen)-1] != OpCheckMultiSig {
+				if txBytes[index+redeemLen-1] != OpCheckMultiSig {
 					return nil, errors.New("Invalid transaction data!")
 				}
-				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+int(redeemLen)]...)
+				if redeemLen > 0xFF {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData2)
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, uint16ToLittleEndianBytes(uint16(redeemLen))...)
+				} else if redeemLen >= 0x4C {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, OpPushData1, byte(redeemLen))
+				} else {
+					rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, byte(redeemLen))
+				}
+				rawTx.Vins[i].scriptMulti = append(rawTx.Vins[i].scriptMulti, txBytes[index:index+redeemLen]...)
 				index += redeemLen
 			}
 		}
-- 
2.43.0


From 93eaf46597a0a296d4916aaa75910cdd16817e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:38 +0000
Subject: [PATCH 039/132] fix: merging signatures reported success with an
 empty transaction or panicked on mismatched signature data

---
 bitcoincashTransaction/transaction.go | 9 ++++++---
 bitcoincashTransaction/txHash.go      | 3 +++
 bitcoinsvTransaction/transaction.go   | 9 ++++++---
 bitcoinsvTransaction/txHash.go        | 3 +++
 btcTransaction/transaction.go         | 9 ++++++---
 btcTransaction/txHash.go              | 3 +++
 cxcTransaction/transaction.go         | 9 ++++++---
 cxcTransaction/txHash.go              | 3 +++
 hcTransaction/transaction.go          | 9 ++++++---
 hcTransaction/txHash.go               | 3 +++
 omniTransaction/transaction.go        | 9 ++++++---
 omniTransaction/txHash.go             | 3 +++
 zencashTransaction/transaction.go     | 2 +-
 zencashTransaction/txHash.go          | 3 +++
 14 files changed, 58 insertions(+), 19 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index 4513070..26e6e6e 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -105,13 +105,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("Invalid empty transaction,no output found!")
 	}
 
-	if len(emptyTrans.Vins) != len(unlockData) {
+	if len(emptyTrans.Vins) != len(unlockData) || len(emptyTrans.Vins) != len(txHashes) {
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -121,7 +121,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
+		}
+		if txHashes[i].IsMultisig() != (inType == TypeMultiSig) {
+			return "", errors.New("The signature data and the unlock data are not match!")
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index fb9d0af..9ea6ff1 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -276,6 +276,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index 1eeb0a7..b488578 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -105,13 +105,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("Invalid empty transaction,no output found!")
 	}
 
-	if len(emptyTrans.Vins) != len(unlockData) {
+	if len(emptyTrans.Vins) != len(unlockData) || len(emptyTrans.Vins) != len(txHashes) {
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -121,7 +121,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
+		}
+		if txHashes[i].IsMultisig() != (inType == TypeMultiSig) {
+			return "", errors.New("The signature data and the unlock data are not match!")
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 47ebe7c..7802ed4 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -277,6 +277,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 09586d4..0d6ec73 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -91,13 +91,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("Invalid empty transaction,no output found!")
 	}
 
-	if len(emptyTrans.Vins) != len(unlockData) {
+	if len(emptyTrans.Vins) != len(unlockData) || len(emptyTrans.Vins) != len(txHashes) {
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -107,7 +107,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
+		}
+		if txHashes[i].IsMultisig() != (inType == TypeMultiSig) {
+			return "", errors.New("The signature data and the unlock data are not match!")
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index bbe5a9a..2f79d21 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -280,6 +280,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 2f2d266..8d39c53 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -110,13 +110,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("Invalid empty transaction,no output found!")
 	}
 
-	if len(emptyTrans.Vins) != len(unlockData) {
+	if len(emptyTrans.Vins) != len(unlockData) || len(emptyTrans.Vins) != len(txHashes) {
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -126,7 +126,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
+		}
+		if txHashes[i].IsMultisig() != (inType == TypeMultiSig) {
+			return "", errors.New("The signature data and the unlock data are not match!")
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index 66077f2..0321243 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -279,6 +279,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index 10922cb..acf3750 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -91,13 +91,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("Invalid empty transaction,no output found!")
 	}
 
-	if len(emptyTrans.Vins) != len(unlockData) {
+	if len(emptyTrans.Vins) != len(unlockData) || len(emptyTrans.Vins) != len(txHashes) {
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
 	segwit, err := isSegwit(unlockData, SegwitON)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !SegwitON {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -107,7 +107,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
+		}
+		if txHashes[i].IsMultisig() != (inType == TypeMultiSig) {
+			return "", errors.New("The signature data and the unlock data are not match!")
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index ba6dda8..b6270c0 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -280,6 +280,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index c3f007a..a0caedb 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -88,13 +88,13 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("Invalid empty transaction,no output found!")
 	}
 
-	if len(emptyTrans.Vins) != len(unlockData) {
+	if len(emptyTrans.Vins) != len(unlockData) || len(emptyTrans.Vins) != len(txHashes) {
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
 	segwit, err := isSegwit(unlockData, false)
 	if err != nil {
-		return "", nil
+		return "", err
 	}
 	if segwit && !false {
 		return "", errors.New("Segwit transaction found while SegwitON is set to false!")
@@ -104,7 +104,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 	for i := 0; i < len(emptyTrans.Vins); i++ {
 		_, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
 		if err != nil {
-			return "", nil
+			return "", err
+		}
+		if txHashes[i].IsMultisig() != (inType == TypeMultiSig) {
+			return "", errors.New("The signature data and the unlock data are not match!")
 		}
 		if inType == TypeP2PKH {
 			emptyTrans.Vins[i].inType = int(inType)
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index 18d51e6..9854476 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -279,6 +279,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index 7c7f156..ca5ccf8 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -90,7 +90,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash, unlock
 		return "", errors.New("Invalid empty transaction,no output found!")
 	}
 
-	if len(emptyTrans.Vins) != len(unlockData) {
+	if len(emptyTrans.Vins) != len(unlockData) || len(emptyTrans.Vins) != len(txHashes) {
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index f6c62b0..d32abba 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -281,6 +281,9 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 
 func (t TxHash) encodeToScript(redeem []byte, SegwitON bool) ([]byte, error) {
 	if t.NRequired == 0 {
+		if t.Normal == nil {
+			return nil, errors.New("Invalid signature data!")
+		}
 		if t.Normal.SigPub.Signature == nil || len(t.Normal.SigPub.Signature) != 64 {
 			return nil, errors.New("Invalid signature data!")
 		}
-- 
2.43.0


From ccd2daece1b0affa3f7367335a9abf39e1875ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:54 +0000
Subject: [PATCH 040/132] fix: verification accepted transactions signed by
 other keys, with other scripts, or too few distinct signers

---
 bitcoincashTransaction/transaction.go | 65 ++++++++++++++++++++-------
 bitcoinsvTransaction/transaction.go   | 65 ++++++++++++++++++++-------
 btcTransaction/transaction.go         | 65 ++++++++++++++++++++-------
 cxcTransaction/transaction.go         | 65 ++++++++++++++++++++-------
 hcTransaction/transaction.go          | 65 ++++++++++++++++++++-------
 omniTransaction/transaction.go        | 62 ++++++++++++++++++-------
 zencashTransaction/transaction.go     | 55 +++++++++++------------
 7 files changed, 311 insertions(+), 131 deletions(-)

diff --git a/bitcoincashTransaction/transaction.go b/bitcoincashTransaction/transaction.go
index 26e6e6e..00f2385 100644
--- a/bitcoincashTransaction/transaction.go
+++ b/bitcoincashTransaction/transaction.go
@@ -205,20 +205,46 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
+		if inType == TypeP2PKH || inType == TypeP2WPKH || inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || sigType != SigHashAll {
+				return false
+			}
+			pubkeyHash := owcrypt.Hash(sigpub.Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+			if inType == TypeP2PKH {
+				if !byteArrayCompare(pubkeyHash, lock[3:23]) {
+					return false
+				}
+			} else if inType == TypeP2WPKH {
+				if !byteArrayCompare(pubkeyHash, redeem[2:22]) || !byteArrayCompare(signedTrans.Vins[i].scriptPub, append([]byte{0x16}, redeem...)) {
+					return false
+				}
+			} else if !byteArrayCompare(pubkeyHash, lock[2:22]) {
 				return false
 			}
 
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
-		} else if signedTrans.Vins[i].inType == TypeMultiSig {
-			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+		} else if inType == TypeMultiSig {
+			script := signedTrans.Vins[i].scriptMulti
+			sigpub, sigType, err := decodeMultiBytes(script)
+			if err != nil || len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
+			if len(script) < len(redeem) || !byteArrayCompare(script[len(script)-len(redeem):], redeem) {
+				return false
+			}
+			if SegwitON && !byteArrayCompare(signedTrans.Vins[i].scriptPub, append([]byte{0x23, 0x22, 0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
+				if j < int(txHash[i].NRequired) && sigType[j] != SigHashAll {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -228,25 +254,30 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			if !verifySignature(t.Normal.SigPub.Pubkey, th, t.Normal.SigPub.Signature) {
 				return false
 			}
 		} else {
-			count := 0
+			// every signature needs a key of its own, in the order of the keys
+			key := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
-						count++
-						break
-					}
+				for key < len(t.Multi) && !verifySignature(t.Multi[key].SigPub.Pubkey, th, t.Multi[i].SigPub.Signature) {
+					key++
 				}
-			}
-			if count != int(t.NRequired) {
-				return false
+				if key == len(t.Multi) {
+					return false
+				}
+				key++
 			}
 		}
 	}
 	return true
 }
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
diff --git a/bitcoinsvTransaction/transaction.go b/bitcoinsvTransaction/transaction.go
index b488578..99fb4a1 100644
--- a/bitcoinsvTransaction/transaction.go
+++ b/bitcoinsvTransaction/transaction.go
@@ -205,20 +205,46 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
+		if inType == TypeP2PKH || inType == TypeP2WPKH || inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || sigType != SigHashAll {
+				return false
+			}
+			pubkeyHash := owcrypt.Hash(sigpub.Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+			if inType == TypeP2PKH {
+				if !byteArrayCompare(pubkeyHash, lock[3:23]) {
+					return false
+				}
+			} else if inType == TypeP2WPKH {
+				if !byteArrayCompare(pubkeyHash, redeem[2:22]) || !byteArrayCompare(signedTrans.Vins[i].scriptPub, append([]byte{0x16}, redeem...)) {
+					return false
+				}
+			} else if !byteArrayCompare(pubkeyHash, lock[2:22]) {
 				return false
 			}
 
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
-		} else if signedTrans.Vins[i].inType == TypeMultiSig {
-			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+		} else if inType == TypeMultiSig {
+			script := signedTrans.Vins[i].scriptMulti
+			sigpub, sigType, err := decodeMultiBytes(script)
+			if err != nil || len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
+			if len(script) < len(redeem) || !byteArrayCompare(script[len(script)-len(redeem):], redeem) {
+				return false
+			}
+			if SegwitON && !byteArrayCompare(signedTrans.Vins[i].scriptPub, append([]byte{0x23, 0x22, 0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
+				if j < int(txHash[i].NRequired) && sigType[j] != SigHashAll {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -228,25 +254,30 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			if !verifySignature(t.Normal.SigPub.Pubkey, th, t.Normal.SigPub.Signature) {
 				return false
 			}
 		} else {
-			count := 0
+			// every signature needs a key of its own, in the order of the keys
+			key := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
-						count++
-						break
-					}
+				for key < len(t.Multi) && !verifySignature(t.Multi[key].SigPub.Pubkey, th, t.Multi[i].SigPub.Signature) {
+					key++
 				}
-			}
-			if count != int(t.NRequired) {
-				return false
+				if key == len(t.Multi) {
+					return false
+				}
+				key++
 			}
 		}
 	}
 	return true
 }
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
diff --git a/btcTransaction/transaction.go b/btcTransaction/transaction.go
index 0d6ec73..3535990 100644
--- a/btcTransaction/transaction.go
+++ b/btcTransaction/transaction.go
@@ -191,20 +191,46 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
+		if inType == TypeP2PKH || inType == TypeP2WPKH || inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || sigType != SigHashAll {
+				return false
+			}
+			pubkeyHash := owcrypt.Hash(sigpub.Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+			if inType == TypeP2PKH {
+				if !byteArrayCompare(pubkeyHash, lock[3:23]) {
+					return false
+				}
+			} else if inType == TypeP2WPKH {
+				if !byteArrayCompare(pubkeyHash, redeem[2:22]) || !byteArrayCompare(signedTrans.Vins[i].scriptPub, append([]byte{0x16}, redeem...)) {
+					return false
+				}
+			} else if !byteArrayCompare(pubkeyHash, lock[2:22]) {
 				return false
 			}
 
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
-		} else if signedTrans.Vins[i].inType == TypeMultiSig {
-			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+		} else if inType == TypeMultiSig {
+			script := signedTrans.Vins[i].scriptMulti
+			sigpub, sigType, err := decodeMultiBytes(script)
+			if err != nil || len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
+			if len(script) < len(redeem) || !byteArrayCompare(script[len(script)-len(redeem):], redeem) {
+				return false
+			}
+			if SegwitON && !byteArrayCompare(signedTrans.Vins[i].scriptPub, append([]byte{0x23, 0x22, 0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
+				if j < int(txHash[i].NRequired) && sigType[j] != SigHashAll {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -214,25 +240,30 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			if !verifySignature(t.Normal.SigPub.Pubkey, th, t.Normal.SigPub.Signature) {
 				return false
 			}
 		} else {
-			count := 0
+			// every signature needs a key of its own, in the order of the keys
+			key := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
-						count++
-						break
-					}
+				for key < len(t.Multi) && !verifySignature(t.Multi[key].SigPub.Pubkey, th, t.Multi[i].SigPub.Signature) {
+					key++
 				}
-			}
-			if count != int(t.NRequired) {
-				return false
+				if key == len(t.Multi) {
+					return false
+				}
+				key++
 			}
 		}
 	}
 	return true
 }
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
diff --git a/cxcTransaction/transaction.go b/cxcTransaction/transaction.go
index 8d39c53..6231706 100644
--- a/cxcTransaction/transaction.go
+++ b/cxcTransaction/transaction.go
@@ -210,20 +210,46 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
+		if inType == TypeP2PKH || inType == TypeP2WPKH || inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || sigType != SigHashAll {
+				return false
+			}
+			pubkeyHash := owcrypt.Hash(sigpub.Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+			if inType == TypeP2PKH {
+				if !byteArrayCompare(pubkeyHash, lock[3:23]) {
+					return false
+				}
+			} else if inType == TypeP2WPKH {
+				if !byteArrayCompare(pubkeyHash, redeem[2:22]) || !byteArrayCompare(signedTrans.Vins[i].scriptPub, append([]byte{0x16}, redeem...)) {
+					return false
+				}
+			} else if !byteArrayCompare(pubkeyHash, lock[2:22]) {
 				return false
 			}
 
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
-		} else if signedTrans.Vins[i].inType == TypeMultiSig {
-			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+		} else if inType == TypeMultiSig {
+			script := signedTrans.Vins[i].scriptMulti
+			sigpub, sigType, err := decodeMultiBytes(script)
+			if err != nil || len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
+			if len(script) < len(redeem) || !byteArrayCompare(script[len(script)-len(redeem):], redeem) {
+				return false
+			}
+			if SegwitON && !byteArrayCompare(signedTrans.Vins[i].scriptPub, append([]byte{0x23, 0x22, 0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
+				if j < int(txHash[i].NRequired) && sigType[j] != SigHashAll {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -233,25 +259,30 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			if !verifySignature(t.Normal.SigPub.Pubkey, th, t.Normal.SigPub.Signature) {
 				return false
 			}
 		} else {
-			count := 0
+			// every signature needs a key of its own, in the order of the keys
+			key := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
-						count++
-						break
-					}
+				for key < len(t.Multi) && !verifySignature(t.Multi[key].SigPub.Pubkey, th, t.Multi[i].SigPub.Signature) {
+					key++
 				}
-			}
-			if count != int(t.NRequired) {
-				return false
+				if key == len(t.Multi) {
+					return false
+				}
+				key++
 			}
 		}
 	}
 	return true
 }
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
diff --git a/hcTransaction/transaction.go b/hcTransaction/transaction.go
index acf3750..f79c9ba 100644
--- a/hcTransaction/transaction.go
+++ b/hcTransaction/transaction.go
@@ -191,20 +191,46 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
+		if inType == TypeP2PKH || inType == TypeP2WPKH || inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || sigType != SigHashAll {
+				return false
+			}
+			pubkeyHash := owcrypt.Hash(sigpub.Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+			if inType == TypeP2PKH {
+				if !byteArrayCompare(pubkeyHash, lock[3:23]) {
+					return false
+				}
+			} else if inType == TypeP2WPKH {
+				if !byteArrayCompare(pubkeyHash, redeem[2:22]) || !byteArrayCompare(signedTrans.Vins[i].scriptPub, append([]byte{0x16}, redeem...)) {
+					return false
+				}
+			} else if !byteArrayCompare(pubkeyHash, lock[2:22]) {
 				return false
 			}
 
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
-		} else if signedTrans.Vins[i].inType == TypeMultiSig {
-			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+		} else if inType == TypeMultiSig {
+			script := signedTrans.Vins[i].scriptMulti
+			sigpub, sigType, err := decodeMultiBytes(script)
+			if err != nil || len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
+			if len(script) < len(redeem) || !byteArrayCompare(script[len(script)-len(redeem):], redeem) {
+				return false
+			}
+			if SegwitON && !byteArrayCompare(signedTrans.Vins[i].scriptPub, append([]byte{0x23, 0x22, 0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
+				if j < int(txHash[i].NRequired) && sigType[j] != SigHashAll {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -214,25 +240,30 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			if !verifySignature(t.Normal.SigPub.Pubkey, th, t.Normal.SigPub.Signature) {
 				return false
 			}
 		} else {
-			count := 0
+			// every signature needs a key of its own, in the order of the keys
+			key := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
-						count++
-						break
-					}
+				for key < len(t.Multi) && !verifySignature(t.Multi[key].SigPub.Pubkey, th, t.Multi[i].SigPub.Signature) {
+					key++
 				}
-			}
-			if count != int(t.NRequired) {
-				return false
+				if key == len(t.Multi) {
+					return false
+				}
+				key++
 			}
 		}
 	}
 	return true
 }
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
diff --git a/omniTransaction/transaction.go b/omniTransaction/transaction.go
index a0caedb..e63fe97 100644
--- a/omniTransaction/transaction.go
+++ b/omniTransaction/transaction.go
@@ -188,20 +188,43 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
+		lock, redeem, inType, err := checkScriptType(unlockData[i].LockScript, unlockData[i].RedeemScript)
+		if err != nil || signedTrans.Vins[i].inType != int(inType) {
+			return false
+		}
+		if inType == TypeP2PKH || inType == TypeP2WPKH || inType == TypeBech32 {
 			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
+			if err != nil || sigType != SigHashAll {
+				return false
+			}
+			pubkeyHash := owcrypt.Hash(sigpub.Pubkey, 0, owcrypt.HASH_ALG_HASH160)
+			if inType == TypeP2PKH {
+				if !byteArrayCompare(pubkeyHash, lock[3:23]) {
+					return false
+				}
+			} else if inType == TypeP2WPKH {
+				if !byteArrayCompare(pubkeyHash, redeem[2:22]) || !byteArrayCompare(signedTrans.Vins[i].scriptPub, append([]byte{0x16}, redeem...)) {
+					return false
+				}
+			} else if !byteArrayCompare(pubkeyHash, lock[2:22]) {
 				return false
 			}
 
 			txHash[i].Normal.SigPub = *sigpub
 			txHash[i].Normal.SigType = sigType
-		} else if signedTrans.Vins[i].inType == TypeMultiSig {
-			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
+		} else if inType == TypeMultiSig {
+			script := signedTrans.Vins[i].scriptMulti
+			sigpub, sigType, err := decodeMultiBytes(script)
+			if err != nil || len(sigpub) != len(txHash[i].Multi) {
+				return false
+			}
+			if len(script) < len(redeem) || !byteArrayCompare(script[len(script)-len(redeem):], redeem) {
 				return false
 			}
 			for j := 0; j < len(sigpub); j++ {
+				if j < int(txHash[i].NRequired) && sigType[j] != SigHashAll {
+					return false
+				}
 				txHash[i].Multi[j].SigPub = sigpub[j]
 				txHash[i].Multi[j].SigType = sigType[j]
 			}
@@ -211,25 +234,30 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, addressPrefix Add
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			if !verifySignature(t.Normal.SigPub.Pubkey, th, t.Normal.SigPub.Signature) {
 				return false
 			}
 		} else {
-			count := 0
+			// every signature needs a key of its own, in the order of the keys
+			key := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
-						count++
-						break
-					}
+				for key < len(t.Multi) && !verifySignature(t.Multi[key].SigPub.Pubkey, th, t.Multi[i].SigPub.Signature) {
+					key++
 				}
-			}
-			if count != int(t.NRequired) {
-				return false
+				if key == len(t.Multi) {
+					return false
+				}
+				key++
 			}
 		}
 	}
 	return true
 }
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
diff --git a/zencashTransaction/transaction.go b/zencashTransaction/transaction.go
index ca5ccf8..d6a89a6 100644
--- a/zencashTransaction/transaction.go
+++ b/zencashTransaction/transaction.go
@@ -143,48 +143,45 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock, SegwitON bool, ad
 	}
 
 	for i := 0; i < len(signedTrans.Vins); i++ {
-		if signedTrans.Vins[i].inType == TypeP2PKH || signedTrans.Vins[i].inType == TypeP2WPKH || signedTrans.Vins[i].inType == TypeBech32 {
-			sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
-			if err != nil {
-				return false
-			}
-
-			txHash[i].Normal.SigPub = *sigpub
-			txHash[i].Normal.SigType = sigType
-		} else if signedTrans.Vins[i].inType == TypeMultiSig {
-			sigpub, sigType, err := decodeMultiBytes(signedTrans.Vins[i].scriptMulti)
-			if err != nil {
-				return false
-			}
-			for j := 0; j < len(sigpub); j++ {
-				txHash[i].Multi[j].SigPub = sigpub[j]
-				txHash[i].Multi[j].SigType = sigType[j]
-			}
+		if signedTrans.Vins[i].inType != TypeP2PKH {
+			return false
 		}
+		sigpub, sigType, err := decodeFromScriptBytes(signedTrans.Vins[i].scriptSig)
+		if err != nil || sigType != SigHashAll {
+			return false
+		}
+
+		txHash[i].Normal.SigPub = *sigpub
+		txHash[i].Normal.SigType = sigType
 	}
 
 	for _, t := range txHash {
 		th, _ := hex.DecodeString(t.Hash)
 		if t.NRequired == 0 {
-			pubkey := owcrypt.PointDecompress(t.Normal.SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-			if owcrypt.Verify(pubkey, nil, th, t.Normal.SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+			if !verifySignature(t.Normal.SigPub.Pubkey, th, t.Normal.SigPub.Signature) {
 				return false
 			}
 		} else {
-			count := 0
+			// every signature needs a key of its own, in the order of the keys
+			key := 0
 			for i := 0; i < int(t.NRequired); i++ {
-				for j := count; j < len(t.Multi); j++ {
-					pubkey := owcrypt.PointDecompress(t.Multi[j].SigPub.Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-					if owcrypt.Verify(pubkey, nil, th, t.Multi[i].SigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS {
-						count++
-						break
-					}
+				for key < len(t.Multi) && !verifySignature(t.Multi[key].SigPub.Pubkey, th, t.Multi[i].SigPub.Signature) {
+					key++
 				}
-			}
-			if count != int(t.NRequired) {
-				return false
+				if key == len(t.Multi) {
+					return false
+				}
+				key++
 			}
 		}
 	}
 	return true
 }
+
+func verifySignature(pubkey, hash, signature []byte) bool {
+	point := owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(point) != 65 {
+		return false
+	}
+	return owcrypt.Verify(point[1:], nil, hash, signature, owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS
+}
-- 
2.43.0


From f1bdef7d17e2f1d79ef1c98416bfab88bf581e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:54 +0000
Subject: [PATCH 041/132] fix: zencash signing digests panicked on short
 locking scripts and ignored other script types

---
 zencashTransaction/txHash.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index d32abba..c6d8926 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -260,7 +260,10 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock, SegwitON bool, addre
 		//if err != nil {
 		//	return nil, err
 		//}
-		lockBytes, _ := hex.DecodeString(unlockData[i].LockScript)
+		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+		if err != nil || len(lockBytes) < 25 || lockBytes[0] != OpCodeDup || lockBytes[1] != OpCodeHash160 || lockBytes[2] != 0x14 || lockBytes[23] != OpCodeEqualVerify || lockBytes[24] != OpCodeCheckSig {
+			return nil, errors.New("Unknown type of lockScript!")
+		}
 
 		sigBytes, err := t.getBytesForSig(lockBytes, nil, TypeP2PKH, unlockData[i].SigType, i, unlockData[i].Amount, SegwitON)
 		if err != nil {
-- 
2.43.0


From 046dfcb891065707738d354fde00a67e0cc01783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:12 +0000
Subject: [PATCH 042/132] fix: BCH and BSV multisignature digests omitted the
 fork id scheme

---
 bitcoincashTransaction/txHash.go | 16 +++-------------
 bitcoinsvTransaction/txHash.go   | 16 +++-------------
 2 files changed, 6 insertions(+), 26 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index 9ea6ff1..44e98e0 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -215,20 +215,10 @@ func (t Transaction) getBytesForSig(lockBytes, redeemBytes []byte, inType, sigTy
 		}
 	} else if inType == TypeMultiSig {
 		if sigType == SigHashAll {
-			if SegwitON {
-				sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
-				if err != nil {
-					return nil, err
-				}
-			} else {
-				t.Vins[index].scriptPub = redeemBytes
-				sigBytes, err = t.encodeToBytes(SegwitON)
-
-				if err != nil {
-					return nil, err
-				}
+			sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
+			if err != nil {
+				return nil, err
 			}
-
 		} else {
 			// TODO
 			return nil, errors.New("The sigType inputed is not supported yet!")
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 7802ed4..8d3adc9 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -216,20 +216,10 @@ func (t Transaction) getBytesForSig(lockBytes, redeemBytes []byte, inType, sigTy
 		}
 	} else if inType == TypeMultiSig {
 		if sigType == SigHashAll {
-			if SegwitON {
-				sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
-				if err != nil {
-					return nil, err
-				}
-			} else {
-				t.Vins[index].scriptPub = redeemBytes
-				sigBytes, err = t.encodeToBytes(SegwitON)
-
-				if err != nil {
-					return nil, err
-				}
+			sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
+			if err != nil {
+				return nil, err
 			}
-
 		} else {
 			// TODO
 			return nil, errors.New("The sigType inputed is not supported yet!")
-- 
2.43.0


From d772c349202c1a712cfcc8cdd0d603528cdff9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:12 +0000
Subject: [PATCH 043/132] fix: digests of inputs the driver cannot sign
 panicked

---
 bitcoincashTransaction/txHash.go | 2 +-
 bitcoinsvTransaction/txHash.go   | 2 +-
 btcTransaction/txHash.go         | 2 +-
 cxcTransaction/txHash.go         | 2 +-
 hcTransaction/txHash.go          | 2 +-
 omniTransaction/txHash.go        | 2 +-
 zencashTransaction/txHash.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index 44e98e0..09729a9 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -72,7 +72,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("Unknown type of lockScript!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 8d3adc9..8b0633e 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -73,7 +73,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("Unknown type of lockScript!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index 2f79d21..3bf3cef 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -76,7 +76,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("Unknown type of lockScript!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index 0321243..7e32c45 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -75,7 +75,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("Unknown type of lockScript!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index b6270c0..890aa87 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -76,7 +76,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("Unknown type of lockScript!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index 9854476..bea2f88 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -75,7 +75,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("Unknown type of lockScript!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
diff --git a/zencashTransaction/txHash.go b/zencashTransaction/txHash.go
index c6d8926..363a45f 100644
--- a/zencashTransaction/txHash.go
+++ b/zencashTransaction/txHash.go
@@ -76,7 +76,7 @@ func newTxHash(hash, lockscript, redeem []byte, inType, sigType byte, addressPre
 		}
 		return &TxHash{hex.EncodeToString(hash), nRequired, nil, multiTx}, nil
 	}
-	return nil, nil
+	return nil, errors.New("Unknown type of lockScript!")
 }
 
 func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, error) {
-- 
2.43.0


From ad632ea9306d9825b8c5305111490750553beee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:07 +0000
Subject: [PATCH 044/132] fix: digests were handed out for redeem scripts that
 do not belong to the spent output

---
 bitcoincashTransaction/txHash.go | 7 ++++++-
 bitcoinsvTransaction/txHash.go   | 7 ++++++-
 btcTransaction/txHash.go         | 7 ++++++-
 cxcTransaction/txHash.go         | 7 ++++++-
 hcTransaction/txHash.go          | 7 ++++++-
 omniTransaction/txHash.go        | 7 ++++++-
 6 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/bitcoincashTransaction/txHash.go b/bitcoincashTransaction/txHash.go
index 09729a9..35cb6c4 100644
--- a/bitcoincashTransaction/txHash.go
+++ b/bitcoincashTransaction/txHash.go
@@ -90,7 +90,12 @@ func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, e
 		if err != nil {
 			return nil, nil, 0, errors.New("Invalid redeemScript for a P2SH type input!")
 		}
-		if len(redeem) == 22 && redeem[0] == 0x00 && redeem[1] == 0x14 {
+		redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
+		witnessHash := owcrypt.Hash(append([]byte{0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...), 0, owcrypt.HASH_ALG_HASH160)
+		if !byteArrayCompare(redeemHash, script[2:22]) && !byteArrayCompare(witnessHash, script[2:22]) {
+			return nil, nil, 0, errors.New("The redeemScript does not match the lockScript!")
+		}
+		if len(redeem) == 22 && redeem[0] == 0x00 && redeem[1] == 0x14 && byteArrayCompare(redeemHash, script[2:22]) {
 			return script, redeem, TypeP2WPKH, nil
 		}
 		if len(redeem) >= 37 && redeem[len(redeem)-1] == OpCheckMultiSig {
diff --git a/bitcoinsvTransaction/txHash.go b/bitcoinsvTransaction/txHash.go
index 8b0633e..a467cfb 100644
--- a/bitcoinsvTransaction/txHash.go
+++ b/bitcoinsvTransaction/txHash.go
@@ -91,7 +91,12 @@ func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, e
 		if err != nil {
 			return nil, nil, 0, errors.New("Invalid redeemScript for a P2SH type input!")
 		}
-		if len(redeem) == 22 && redeem[0] == 0x00 && redeem[1] == 0x14 {
+		redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
+		witnessHash := owcrypt.Hash(append([]byte{0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...), 0, owcrypt.HASH_ALG_HASH160)
+		if !byteArrayCompare(redeemHash, script[2:22]) && !byteArrayCompare(witnessHash, script[2:22]) {
+			return nil, nil, 0, errors.New("The redeemScript does not match the lockScript!")
+		}
+		if len(redeem) == 22 && redeem[0] == 0x00 && redeem[1] == 0x14 && byteArrayCompare(redeemHash, script[2:22]) {
 			return script, redeem, TypeP2WPKH, nil
 		}
 		if len(redeem) >= 37 && redeem[len(redeem)-1] == OpCheckMultiSig {
diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index 3bf3cef..b568399 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -94,7 +94,12 @@ func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, e
 		if err != nil {
 			return nil, nil, 0, errors.New("Invalid redeemScript for a P2SH type input!")
 		}
-		if len(redeem) == 22 && redeem[0] == 0x00 && redeem[1] == 0x14 {
+		redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
+		witnessHash := owcrypt.Hash(append([]byte{0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...), 0, owcrypt.HASH_ALG_HASH160)
+		if !byteArrayCompare(redeemHash, script[2:22]) && !byteArrayCompare(witnessHash, script[2:22]) {
+			return nil, nil, 0, errors.New("The redeemScript does not match the lockScript!")
+		}
+		if len(redeem) == 22 && redeem[0] == 0x00 && redeem[1] == 0x14 && byteArrayCompare(redeemHash, script[2:22]) {
 			return script, redeem, TypeP2WPKH, nil
 		}
 		if len(redeem) >= 37 && redeem[len(redeem)-1] == OpCheckMultiSig {
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index 7e32c45..06ba4d2 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -93,7 +93,12 @@ func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, e
 		if err != nil {
 			return nil, nil, 0, errors.New("Invalid redeemScript for a P2SH type input!")
 		}
-		if len(redeem) == 22 && redeem[0] == 0x00 && redeem[1] == 0x14 {
+		redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
+		witnessHash := owcrypt.Hash(append([]byte{0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...), 0, owcrypt.HASH_ALG_HASH160)
+		if !byteArrayCompare(redeemHash, script[2:22]) && !byteArrayCompare(witnessHash, script[2:22]) {
+			return nil, nil, 0, errors.New("The redeemScript does not match the lockScript!")
+		}
+		if len(redeem) == 22 && redeem[0] == 0x00 && redeem[1] == 0x14 && byteArrayCompare(redeemHash, script[2:22]) {
 			return script, redeem, TypeP2WPKH, nil
 		}
 		if len(redeem) >= 37 && redeem[len(redeem)-1] == OpCheckMultiSig {
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index 890aa87..7455b1e 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -94,7 +94,12 @@ func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, e
 		if err != nil {
 			return nil, nil, 0, errors.New("Invalid redeemScript for a P2SH type input!")
 		}
-		if len(redeem) == 22 && redeem[0] == 0x00 && redeem[1] == 0x14 {
+		redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
+		witnessHash := owcrypt.Hash(append([]byte{0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...), 0, owcrypt.HASH_ALG_HASH160)
+		if !byteArrayCompare(redeemHash, script[2:22]) && !byteArrayCompare(witnessHash, script[2:22]) {
+			return nil, nil, 0, errors.New("The redeemScript does not match the lockScript!")
+		}
+		if len(redeem) == 22 && redeem[0] == 0x00 && redeem[1] == 0x14 && byteArrayCompare(redeemHash, script[2:22]) {
 			return script, redeem, TypeP2WPKH, nil
 		}
 		if len(redeem) >= 37 && redeem[len(redeem)-1] == OpCheckMultiSig {
diff --git a/omniTransaction/txHash.go b/omniTransaction/txHash.go
index bea2f88..85985ec 100644
--- a/omniTransaction/txHash.go
+++ b/omniTransaction/txHash.go
@@ -93,7 +93,12 @@ func checkScriptType(scriptPubkey, redeemScript string) ([]byte, []byte, byte, e
 		if err != nil {
 			return nil, nil, 0, errors.New("Invalid redeemScript for a P2SH type input!")
 		}
-		if len(redeem) == 22 && redeem[0] == 0x00 && redeem[1] == 0x14 {
+		redeemHash := owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160)
+		witnessHash := owcrypt.Hash(append([]byte{0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...), 0, owcrypt.HASH_ALG_HASH160)
+		if !byteArrayCompare(redeemHash, script[2:22]) && !byteArrayCompare(witnessHash, script[2:22]) {
+			return nil, nil, 0, errors.New("The redeemScript does not match the lockScript!")
+		}
+		if len(redeem) == 22 && redeem[0] == 0x00 && redeem[1] == 0x14 && byteArrayCompare(redeemHash, script[2:22]) {
 			return script, redeem, TypeP2WPKH, nil
 		}
 		if len(redeem) >= 37 && redeem[len(redeem)-1] == OpCheckMultiSig {
-- 
2.43.0


From fa5f683760bff89bd4417b416c96fb6bd3991d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:07 +0000
Subject: [PATCH 045/132] fix: zencash block hashes of a wrong length were
 accepted

---
 zencashTransaction/txOut.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 9e3c9df..72de2d1 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -24,7 +24,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 	p2wpkhPrefixByte = addressPrefix.P2WPKHPrefix
 
 	blockHashBytes, err := reverseHexToBytes(blockHash)
-	if err != nil {
+	if err != nil || len(blockHashBytes) != 32 {
 		return nil, errors.New("Invalid block hash!")
 	}
 	tmp := make([]byte, 8)
-- 
2.43.0


From ec7336b69bcb5afde18e01e2051c6cc8683aa678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:07 +0000
Subject: [PATCH 046/132] fix: zencash block heights with the top bit set were
 encoded as negative script numbers

---
 zencashTransaction/txOut.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zencashTransaction/txOut.go b/zencashTransaction/txOut.go
index 72de2d1..94a0333 100644
--- a/zencashTransaction/txOut.go
+++ b/zencashTransaction/txOut.go
@@ -38,6 +38,10 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix, blockHash s
 		}
 	}
 	blockHeightBytes := reverseBytes(tmp[zerocount:])
+	if len(blockHeightBytes) > 0 && blockHeightBytes[len(blockHeightBytes)-1]&0x80 != 0 {
+		// script numbers are signed, keep the height positive
+		blockHeightBytes = append(blockHeightBytes, 0x00)
+	}
 
 	for _, v := range vout {
 		amount := uint64ToLittleEndianBytes(v.Amount)
-- 
2.43.0


From 56a05bc042d8c024a752b1dd10a1e8d826abff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:07 +0000
Subject: [PATCH 047/132] fix: cxc asset ids of a wrong length were accepted

---
 cxcTransaction/txAsset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxcTransaction/txAsset.go b/cxcTransaction/txAsset.go
index 008ee07..3b537d2 100644
--- a/cxcTransaction/txAsset.go
+++ b/cxcTransaction/txAsset.go
@@ -9,7 +9,7 @@ func getTransferPayload(to AssetTransfer) []byte {
 	ret := []byte(AssetTransferSign)
 
 	sellfirstBytes, err := reverseHexToBytes(to.FirstSellTxID)
-	if err != nil {
+	if err != nil || len(sellfirstBytes) != 16 {
 		return nil
 	}
 
-- 
2.43.0


From 46b56e93d73ad3191aefb4d2da11fc6b6f8d81da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:07 +0000
Subject: [PATCH 048/132] fix: freeze and unfreeze requests with an invalid
 address became an empty omni message

---
 bitcoincashTransaction/txOmni.go | 4 ++++
 bitcoinsvTransaction/txOmni.go   | 4 ++++
 omniTransaction/txOmni.go        | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/bitcoincashTransaction/txOmni.go b/bitcoincashTransaction/txOmni.go
index 53192ee..3023911 100644
--- a/bitcoincashTransaction/txOmni.go
+++ b/bitcoincashTransaction/txOmni.go
@@ -52,6 +52,10 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	if payload == nil {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
 	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
 	return payload
diff --git a/bitcoinsvTransaction/txOmni.go b/bitcoinsvTransaction/txOmni.go
index 8e70e79..5d88c47 100644
--- a/bitcoinsvTransaction/txOmni.go
+++ b/bitcoinsvTransaction/txOmni.go
@@ -52,6 +52,10 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	if payload == nil {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
 	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
 	return payload
diff --git a/omniTransaction/txOmni.go b/omniTransaction/txOmni.go
index 04b331d..034c3cb 100644
--- a/omniTransaction/txOmni.go
+++ b/omniTransaction/txOmni.go
@@ -52,6 +52,10 @@ func (os OmniStruct) getPayload() []byte {
 		return nil
 	}
 
+	if payload == nil {
+		return nil
+	}
+
 	payload = append(OmniPrefix[:], payload...)
 	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
 	return payload
-- 
2.43.0


From f14360630a833d1d3a390d8ada1ee806daf3e0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:07 +0000
Subject: [PATCH 049/132] fix: omni memos longer than 255 bytes were cut
 silently

---
 bitcoincashTransaction/txPayload.go | 4 ++--
 bitcoinsvTransaction/txPayload.go   | 4 ++--
 omniTransaction/txPayload.go        | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/bitcoincashTransaction/txPayload.go b/bitcoincashTransaction/txPayload.go
index 662f01b..e412d62 100644
--- a/bitcoincashTransaction/txPayload.go
+++ b/bitcoincashTransaction/txPayload.go
@@ -67,7 +67,7 @@ func createPayloadGrant(propertyID uint32, amount uint64, memo string) []byte {
 	ret = append(ret, uint64ToBigEndianBytes(amount)...)
 
 	if len(memo) > 255 {
-		memo = memo[:255]
+		return nil
 	}
 	ret = append(ret, []byte(memo)...)
 	ret = append(ret, 0)
@@ -87,7 +87,7 @@ func createPayloadRevoke(propertyID uint32, amount uint64, memo string) []byte {
 	ret = append(ret, uint64ToBigEndianBytes(amount)...)
 
 	if len(memo) > 255 {
-		memo = memo[:255]
+		return nil
 	}
 	ret = append(ret, []byte(memo)...)
 	ret = append(ret, 0)
diff --git a/bitcoinsvTransaction/txPayload.go b/bitcoinsvTransaction/txPayload.go
index fa2ef56..db84771 100644
--- a/bitcoinsvTransaction/txPayload.go
+++ b/bitcoinsvTransaction/txPayload.go
@@ -67,7 +67,7 @@ func createPayloadGrant(propertyID uint32, amount uint64, memo string) []byte {
 	ret = append(ret, uint64ToBigEndianBytes(amount)...)
 
 	if len(memo) > 255 {
-		memo = memo[:255]
+		return nil
 	}
 	ret = append(ret, []byte(memo)...)
 	ret = append(ret, 0)
@@ -87,7 +87,7 @@ func createPayloadRevoke(propertyID uint32, amount uint64, memo string) []byte {
 	ret = append(ret, uint64ToBigEndianBytes(amount)...)
 
 	if len(memo) > 255 {
-		memo = memo[:255]
+		return nil
 	}
 	ret = append(ret, []byte(memo)...)
 	ret = append(ret, 0)
diff --git a/omniTransaction/txPayload.go b/omniTransaction/txPayload.go
index 57bbbb4..3afcde6 100644
--- a/omniTransaction/txPayload.go
+++ b/omniTransaction/txPayload.go
@@ -66,7 +66,7 @@ func createPayloadGrant(propertyID uint32, amount uint64, memo string) []byte {
 	ret = append(ret, uint64ToBigEndianBytes(amount)...)
 
 	if len(memo) > 255 {
-		memo = memo[:255]
+		return nil
 	}
 	ret = append(ret, []byte(memo)...)
 	ret = append(ret, 0)
@@ -86,7 +86,7 @@ func createPayloadRevoke(propertyID uint32, amount uint64, memo string) []byte {
 	ret = append(ret, uint64ToBigEndianBytes(amount)...)
 
 	if len(memo) > 255 {
-		memo = memo[:255]
+		return nil
 	}
 	ret = append(ret, []byte(memo)...)
 	ret = append(ret, 0)
-- 
2.43.0


From 34cdd334af790c7a8bf9d32328515965bf27500e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:07 +0000
Subject: [PATCH 050/132] fix: omni messages of more than 75 bytes were pushed
 with the wrong opcode

---
 bitcoincashTransaction/txOmni.go | 8 +++++++-
 bitcoinsvTransaction/txOmni.go   | 8 +++++++-
 omniTransaction/txOmni.go        | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/bitcoincashTransaction/txOmni.go b/bitcoincashTransaction/txOmni.go
index 3023911..96635ea 100644
--- a/bitcoincashTransaction/txOmni.go
+++ b/bitcoincashTransaction/txOmni.go
@@ -57,7 +57,13 @@ func (os OmniStruct) getPayload() []byte {
 	}
 
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	if len(payload) < int(OpPushData1) {
+		payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	} else if len(payload) <= 0xFF {
+		payload = append([]byte{OpReturn, OpPushData1, byte(len(payload))}, payload...)
+	} else {
+		payload = append(append([]byte{OpReturn, OpPushData2}, uint16ToLittleEndianBytes(uint16(len(payload)))...), payload...)
+	}
 	return payload
 }
 
diff --git a/bitcoinsvTransaction/txOmni.go b/bitcoinsvTransaction/txOmni.go
index 5d88c47..8128f5c 100644
--- a/bitcoinsvTransaction/txOmni.go
+++ b/bitcoinsvTransaction/txOmni.go
@@ -57,7 +57,13 @@ func (os OmniStruct) getPayload() []byte {
 	}
 
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	if len(payload) < int(OpPushData1) {
+		payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	} else if len(payload) <= 0xFF {
+		payload = append([]byte{OpReturn, OpPushData1, byte(len(payload))}, payload...)
+	} else {
+		payload = append(append([]byte{OpReturn, OpPushData2}, uint16ToLittleEndianBytes(uint16(len(payload)))...), payload...)
+	}
 	return payload
 }
 
diff --git a/omniTransaction/txOmni.go b/omniTransaction/txOmni.go
index 034c3cb..090e6fd 100644
--- a/omniTransaction/txOmni.go
+++ b/omniTransaction/txOmni.go
@@ -57,6 +57,12 @@ func (os OmniStruct) getPayload() []byte {
 	}
 
 	payload = append(OmniPrefix[:], payload...)
-	payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	if len(payload) < int(OpPushData1) {
+		payload = append([]byte{OpReturn, byte(len(payload))}, payload...)
+	} else if len(payload) <= 0xFF {
+		payload = append([]byte{OpReturn, OpPushData1, byte(len(payload))}, payload...)
+	} else {
+		payload = append(append([]byte{OpReturn, OpPushData2}, uint16ToLittleEndianBytes(uint16(len(payload)))...), payload...)
+	}
 	return payload
 }
-- 
2.43.0


From acd79f66d6ca3d9c175c346630646a947be471b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:22 +0000
Subject: [PATCH 051/132] fix: omni freeze requests accepted addresses of
 another network

---
 bitcoincashTransaction/txOut.go | 7 +++++++
 bitcoinsvTransaction/txOut.go   | 7 +++++++
 omniTransaction/txOut.go        | 7 +++++++
 3 files changed, 21 insertions(+)

diff --git a/bitcoincashTransaction/txOut.go b/bitcoincashTransaction/txOut.go
index 1023df4..e570698 100644
--- a/bitcoincashTransaction/txOut.go
+++ b/bitcoincashTransaction/txOut.go
@@ -85,6 +85,13 @@ func newOmniTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix
 		ret = append(ret, TxOut{amount, hash})
 	}
 
+	if omniDetail.TxType == FreezeTokens || omniDetail.TxType == UnfreezeTokens {
+		prefix, _, err := DecodeCheck(omniDetail.Address)
+		if err != nil || (!byteArrayCompare(prefix, p2pkhPrefixByte) && !byteArrayCompare(prefix, p2wpkhPrefixByte)) {
+			return nil, errors.New("Invalid address to freeze or unfreeze!")
+		}
+	}
+
 	ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), omniDetail.getPayload()})
 
 	return ret, nil
diff --git a/bitcoinsvTransaction/txOut.go b/bitcoinsvTransaction/txOut.go
index 4cf7275..a6f8a2f 100644
--- a/bitcoinsvTransaction/txOut.go
+++ b/bitcoinsvTransaction/txOut.go
@@ -85,6 +85,13 @@ func newOmniTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix
 		ret = append(ret, TxOut{amount, hash})
 	}
 
+	if omniDetail.TxType == FreezeTokens || omniDetail.TxType == UnfreezeTokens {
+		prefix, _, err := DecodeCheck(omniDetail.Address)
+		if err != nil || (!byteArrayCompare(prefix, p2pkhPrefixByte) && !byteArrayCompare(prefix, p2wpkhPrefixByte)) {
+			return nil, errors.New("Invalid address to freeze or unfreeze!")
+		}
+	}
+
 	ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), omniDetail.getPayload()})
 
 	return ret, nil
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index cd9b90e..dd4e5fb 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -60,6 +60,13 @@ func newTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix Add
 		ret = append(ret, TxOut{amount, hash})
 	}
 
+	if omniDetail.TxType == FreezeTokens || omniDetail.TxType == UnfreezeTokens {
+		prefix, _, err := DecodeCheck(omniDetail.Address)
+		if err != nil || (!byteArrayCompare(prefix, p2pkhPrefixByte) && !byteArrayCompare(prefix, p2wpkhPrefixByte)) {
+			return nil, errors.New("Invalid address to freeze or unfreeze!")
+		}
+	}
+
 	ret = append(ret, TxOut{uint64ToLittleEndianBytes(0), omniDetail.getPayload()})
 
 	return ret, nil
-- 
2.43.0


From c56670dff5fd10a30971972d3bcdaa91574c0a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 052/132] fix: btcLikeTxDriver refused every bech32 output

---
 btcLikeTxDriver/txOut.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/btcLikeTxDriver/txOut.go b/btcLikeTxDriver/txOut.go
index a99cd2d..277f129 100644
--- a/btcLikeTxDriver/txOut.go
+++ b/btcLikeTxDriver/txOut.go
@@ -26,6 +26,8 @@ func newTxOutForEmptyTrans(vout []Vout) ([]TxOut, error) {
 			redeem = append([]byte{0x00}, redeem...)
 
 			ret = append(ret, TxOut{amount, redeem})
+
+			continue
 		}
 
 		prefix, hash, err := DecodeCheck(v.Address)
-- 
2.43.0


From 13f65e3406366864c3b91bea8918b77bfea76f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 053/132] fix: btcLikeTxDriver GetTxID reversed the transaction
 id of the decoded input in place

---
 btcLikeTxDriver/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btcLikeTxDriver/utils.go b/btcLikeTxDriver/utils.go
index 3fc84d4..120af24 100644
--- a/btcLikeTxDriver/utils.go
+++ b/btcLikeTxDriver/utils.go
@@ -28,7 +28,7 @@ func reverseHexToBytes(hexVar string) ([]byte, error) {
 
 //reverseBytesToHex change the endian of the input byte array then encode it to hex string
 func reverseBytesToHex(bytesVar []byte) string {
-	return hex.EncodeToString(reverseBytes(bytesVar))
+	return hex.EncodeToString(reverseBytes(append([]byte{}, bytesVar...)))
 }
 
 //uint32ToLittleEndianBytes
-- 
2.43.0


From 52b13bfe9d0a66e8fb990694f452d1a34d545f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 054/132] fix: btcLikeTxDriver wrote and accepted signatures
 that are not strict DER

---
 btcLikeTxDriver/signaturepubkey.go |  38 ++++-------
 btcLikeTxDriver/txStruct.go        |   6 +-
 btcLikeTxDriver/witness.go         | 101 ++---------------------------
 3 files changed, 22 insertions(+), 123 deletions(-)

diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index 0a0d002..b8720c6 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -21,10 +21,8 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
 		return append(sig[:32], s...)
 	}
@@ -66,7 +64,7 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -77,7 +75,7 @@ func (sp SignaturePubkey) encodeToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
@@ -147,18 +145,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 	if rLen > 0x21 {
 		return nil, errors.New("Invalid r length!")
 	}
-	if rLen == 0x21 {
-		if index+2 > limit {
-			return nil, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(rLen) > limit {
+	if rLen == 0 || index+int(rLen) > limit {
 		return nil, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, errors.New("Invalid signature data!")
+	}
 	ret.Signature = script[index : index+int(rLen)]
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
@@ -187,18 +179,12 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 	if sLen > 0x21 {
 		return nil, errors.New("Invalid s length!")
 	}
-	if sLen == 0x21 {
-		if index+2 > limit {
-			return nil, errors.New("Invalid script data!")
-		}
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-	}
-
-	if index+int(sLen) > limit {
+	if sLen == 0 || index+int(sLen) > limit {
 		return nil, errors.New("Invalid script data!")
 	}
+	if script[index]&0x80 != 0 || (sLen == 0x21 && script[index] != 0x00) || (sLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
+		return nil, errors.New("Invalid signature data!")
+	}
 	sdata := script[index : index+int(sLen)]
 	if sLen == 0x21 {
 		sdata = sdata[1:]
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 6cad74c..a23d648 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -266,13 +266,17 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 				if index+int(length)+1+34 > limit {
 					return nil, errors.New("Invalid transaction data length!")
 				}
-				witness, _ := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				witness, err := decodeFromSegwitBytes(txBytes[index : index+int(length)+1+34])
+				if err != nil {
+					return nil, err
+				}
 				rawTx.Witness = append(rawTx.Witness, *witness)
 
 				index += int(length) + 1 + 34
 			} else {
 				//TODO
 				//for multisig
+				return nil, errors.New("Witness data of this type is not supported!")
 			}
 		}
 	}
diff --git a/btcLikeTxDriver/witness.go b/btcLikeTxDriver/witness.go
index 36d9a11..20ae434 100644
--- a/btcLikeTxDriver/witness.go
+++ b/btcLikeTxDriver/witness.go
@@ -1,109 +1,18 @@
 package btcLikeTxDriver
 
-import "errors"
-
 type TxWitness struct {
 	Signature []byte
 	Pubkey    []byte
 }
 
 func (w TxWitness) encodeToScript(sigType byte) []byte {
-	r := w.Signature[:32]
-	s := w.Signature[32:]
-
-	if r[0]&0x80 == 0x80 {
-		r = append([]byte{0x00}, r...)
-	}
-	if s[0]&0x80 == 0x80 {
-		s = append([]byte{0}, s...)
-	}
-
-	r = append([]byte{byte(len(r))}, r...)
-	r = append([]byte{0x02}, r...)
-	s = append([]byte{byte(len(s))}, s...)
-	s = append([]byte{0x02}, s...)
-
-	rs := append(r, s...)
-	rs = append([]byte{byte(len(rs))}, rs...)
-	rs = append(rs, sigType)
-	rs = append([]byte{0x30}, rs...)
-	rs = append([]byte{byte(len(rs))}, rs...)
-
-	pub := append([]byte{byte(len(w.Pubkey))}, w.Pubkey...)
-
-	return append(rs, pub...)
+	return SignaturePubkey{w.Signature, w.Pubkey}.encodeToScript(sigType)
 }
 
 func decodeFromSegwitBytes(script []byte) (*TxWitness, error) {
-	var ret TxWitness
-	index := 0
-	sigLen := script[index]
-	index++
-
-	if script[index] != 0x30 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	rsLen := script[index]
-	index++
-
-	if script[index] != 0x02 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	rLen := script[index]
-	index++
-
-	if rLen == 0x21 {
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-		index++
-	}
-
-	ret.Signature = script[index : index+32]
-	index += 32
-
-	if script[index] != 0x02 {
-		return nil, errors.New("Invalid signature data!")
-	}
-	index++
-
-	sLen := script[index]
-	index++
-
-	if sLen == 0x21 {
-		if script[index] != 0x00 && (script[index+1]&0x80 != 0x80) {
-			return nil, errors.New("Invalid signature data!")
-		}
-		index++
-	}
-
-	ret.Signature = append(ret.Signature, script[index:index+32]...)
-	index += 32
-
-	if script[index] != SigHashAll {
-		return nil, errors.New("Only sigAll supported!")
-	}
-	index++
-
-	pubLen := script[index]
-	index++
-	if pubLen != 0x21 {
-		return nil, errors.New("Only compressed pubkey is supported!")
-	}
-
-	ret.Pubkey = script[index : index+33]
-	index += 33
-
-	if (rLen+sLen+4 != rsLen) || (rsLen+3 != sigLen) || (sigLen+pubLen+2 != byte(len(script))) {
-		return nil, errors.New("Invalid transaction data!")
-	}
-
-	if index != len(script) {
-		return nil, errors.New("Invalid transaction data!")
+	sigPub, err := decodeFromScriptBytes(script)
+	if err != nil {
+		return nil, err
 	}
-	return &ret, nil
+	return &TxWitness{sigPub.Signature, sigPub.Pubkey}, nil
 }
-- 
2.43.0


From bafecc47ab68e41542c6f8fb59dae69deb6bc496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 055/132] fix: btcLikeTxDriver took single-key spends for
 multisignature ones when the key ends with the opcode

---
 btcLikeTxDriver/multiSig.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/btcLikeTxDriver/multiSig.go b/btcLikeTxDriver/multiSig.go
index 733e00d..3662874 100644
--- a/btcLikeTxDriver/multiSig.go
+++ b/btcLikeTxDriver/multiSig.go
@@ -52,10 +52,14 @@ func (t Transaction) isMultiSig() bool {
 	if t.Vins[0].ScriptPubkeySignature == nil {
 		return false
 	}
-	if t.Vins[0].ScriptPubkeySignature[len(t.Vins[0].ScriptPubkeySignature)-1] != OpCheckMultiSig {
+	return isMultiSigScript(t.Vins[0].ScriptPubkeySignature)
+}
+
+func isMultiSigScript(script []byte) bool {
+	if len(script) < 37 || script[0] < OpCode_1 || script[0] > OpCode_1+15 {
 		return false
 	}
-	return true
+	return script[len(script)-1] == OpCheckMultiSig
 }
 
 func isMultiSig(lockScript, redeemScript string) bool {
@@ -67,7 +71,7 @@ func isMultiSig(lockScript, redeemScript string) bool {
 	if err != nil {
 		return false
 	}
-	if !(lockBytes[0] == OpCodeHash160 && lockBytes[1] == 0x14 || lockBytes[22] == OpCodeEqual) {
+	if !(lockBytes[0] == OpCodeHash160 && lockBytes[1] == 0x14 && lockBytes[22] == OpCodeEqual) {
 		return false
 	}
 
@@ -76,11 +80,7 @@ func isMultiSig(lockScript, redeemScript string) bool {
 		return false
 	}
 
-	if len(redeemBytes) == 0 || redeemBytes[len(redeemBytes)-1] != OpCheckMultiSig {
-		return false
-	}
-	return true
-
+	return isMultiSigScript(redeemBytes)
 }
 
 func calcRedeemHash(redeem []byte) []byte {
-- 
2.43.0


From 97c49f0dd0443feefb4a7ebaed6eed379dce76c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 056/132] fix: btcLikeTxDriver dropped the witness of every
 witness input but the first

---
 btcLikeTxDriver/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index e82938e..031d308 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -112,8 +112,8 @@ func SignEmptyRawTransaction(txHex string, unlockData []TxUnlock) (string, error
 				for j := 0; j < i; j++ {
 					emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{})
 				}
-				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 			}
+			emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
 
 		} else {
 			emptyTrans.Vins[i].ScriptPubkeySignature = sigPub[i].encodeToScript(SigHashAll)
-- 
2.43.0


From 707ca963580936a92ca1228195324c0c08ac7c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:05 +0000
Subject: [PATCH 057/132] fix: btcLikeTxDriver rewrote the unlock data of its
 caller

---
 btcLikeTxDriver/transaction.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index 031d308..5cbfd8f 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -44,6 +44,7 @@ func CreateEmptyRawTransaction(vins []Vin, vouts []Vout, lockTime uint32, replac
 }
 
 func CreateRawTransactionHashForSig(txHex string, unlockData []TxUnlock) ([]string, error) {
+	unlockData = append([]TxUnlock{}, unlockData...)
 	txBytes, err := hex.DecodeString(txHex)
 	if err != nil {
 		return nil, errors.New("Invalid transaction hex string!")
@@ -68,6 +69,7 @@ func CreateRawTransactionHashForSig(txHex string, unlockData []TxUnlock) ([]stri
 }
 
 func SignEmptyRawTransaction(txHex string, unlockData []TxUnlock) (string, error) {
+	unlockData = append([]TxUnlock{}, unlockData...)
 	txBytes, err := hex.DecodeString(txHex)
 	if err != nil {
 		return "", errors.New("Invalid transaction hex string!")
@@ -144,6 +146,7 @@ func SignRawTransactionHash(txHash []string, unlockData []TxUnlock) ([]Signature
 }
 
 func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey, unlockData []TxUnlock) (string, error) {
+	unlockData = append([]TxUnlock{}, unlockData...)
 	txBytes, err := hex.DecodeString(txHex)
 	if err != nil {
 		return "", errors.New("Invalid transaction hex data!")
@@ -235,6 +238,7 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 }
 
 func VerifyRawTransaction(txHex string, unlockData []TxUnlock) bool {
+	unlockData = append([]TxUnlock{}, unlockData...)
 	txBytes, err := hex.DecodeString(txHex)
 	if err != nil {
 		return false
-- 
2.43.0


From 5fc452bf5b807179c603fe27ea2a5fd16a7ab385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:06 +0000
Subject: [PATCH 058/132] fix: btcLikeTxDriver truncated counts and script
 lengths of 253 or more to one byte

---
 btcLikeTxDriver/txStruct.go | 52 ++++++++++++++++++-------------------
 btcLikeTxDriver/utils.go    | 39 ++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+), 27 deletions(-)

diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index a23d648..9d42e42 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -59,7 +59,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			return nil, errors.New("No witness data for a multisig transaction!")
 		}
 		ret = append(ret, SegWitSymbol, SegWitVersion)
-		ret = append(ret, byte(len(t.Vins)))
+		ret = append(ret, varIntToBytes(len(t.Vins))...)
 		for _, in := range t.Vins {
 			if in.TxID == nil || len(in.TxID) != 32 || in.Vout == nil || len(in.Vout) != 4 {
 				return nil, errors.New("Invalid transaction input!")
@@ -71,14 +71,14 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, redeemHash...)
 			ret = append(ret, in.Sequence...)
 		}
-		ret = append(ret, byte(len(t.Vouts)))
+		ret = append(ret, varIntToBytes(len(t.Vouts))...)
 
 		for _, out := range t.Vouts {
 			if out.amount == nil || len(out.amount) != 8 || out.lockScript == nil {
 				return nil, errors.New("Invalid transaction output!")
 			}
 			ret = append(ret, out.amount...)
-			ret = append(ret, byte(len(out.lockScript)))
+			ret = append(ret, varIntToBytes(len(out.lockScript))...)
 			ret = append(ret, out.lockScript...)
 		}
 
@@ -93,7 +93,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			}
 		}
 
-		ret = append(ret, byte(len(t.Vins[0].ScriptPubkeySignature)))
+		ret = append(ret, varIntToBytes(len(t.Vins[0].ScriptPubkeySignature))...)
 
 		ret = append(ret, t.Vins[0].ScriptPubkeySignature...)
 	} else {
@@ -102,7 +102,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, SegWitSymbol, SegWitVersion)
 		}
 
-		ret = append(ret, byte(len(t.Vins)))
+		ret = append(ret, varIntToBytes(len(t.Vins))...)
 
 		for _, in := range t.Vins {
 			if in.TxID == nil || len(in.TxID) != 32 || in.Vout == nil || len(in.Vout) != 4 {
@@ -119,14 +119,14 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, in.Sequence...)
 		}
 
-		ret = append(ret, byte(len(t.Vouts)))
+		ret = append(ret, varIntToBytes(len(t.Vouts))...)
 
 		for _, out := range t.Vouts {
 			if out.amount == nil || len(out.amount) != 8 || out.lockScript == nil {
 				return nil, errors.New("Invalid transaction output!")
 			}
 			ret = append(ret, out.amount...)
-			ret = append(ret, byte(len(out.lockScript)))
+			ret = append(ret, varIntToBytes(len(out.lockScript))...)
 			ret = append(ret, out.lockScript...)
 		}
 
@@ -172,13 +172,12 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		index += 2
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVins, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVins := txBytes[index]
-	index++
 
-	for i := byte(0); i < numOfVins; i++ {
+	for i := 0; i < numOfVins; i++ {
 		var tmpTxIn TxIn
 
 		if index+32 > limit {
@@ -217,13 +216,12 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		rawTx.Vins = append(rawTx.Vins, tmpTxIn)
 	}
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid transaction data length!")
+	numOfVouts, index, err := readVarInt(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-	numOfVouts := txBytes[index]
-	index++
 
-	for i := byte(0); i < numOfVouts; i++ {
+	for i := 0; i < numOfVouts; i++ {
 		var tmpTxOut TxOut
 
 		if index+8 > limit {
@@ -232,23 +230,23 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		tmpTxOut.amount = txBytes[index : index+8]
 		index += 8
 
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data length!")
+		lockScriptLen, next, err := readVarInt(txBytes, index)
+		if err != nil {
+			return nil, err
 		}
-		lockScriptLen := txBytes[index]
-		index++
+		index = next
 
-		if index+int(lockScriptLen) > limit {
+		if index+lockScriptLen > limit {
 			return nil, errors.New("Invalid transaction data length!")
 		}
-		tmpTxOut.lockScript = txBytes[index : index+int(lockScriptLen)]
-		index += int(lockScriptLen)
+		tmpTxOut.lockScript = txBytes[index : index+lockScriptLen]
+		index += lockScriptLen
 
 		rawTx.Vouts = append(rawTx.Vouts, tmpTxOut)
 	}
 
 	if segwit {
-		for i := byte(0); i < numOfVins; i++ {
+		for i := 0; i < numOfVins; i++ {
 			if index+1 > limit {
 				return nil, errors.New("Invalid transaction data length!")
 			}
@@ -326,7 +324,7 @@ func calcSegwitHash(tx Transaction) ([]byte, []byte, []byte, error) {
 
 	for _, vout := range tx.Vouts {
 		hashOutputs = append(hashOutputs, vout.amount...)
-		hashOutputs = append(hashOutputs, byte(len(vout.lockScript)))
+		hashOutputs = append(hashOutputs, varIntToBytes(len(vout.lockScript))...)
 		hashOutputs = append(hashOutputs, vout.lockScript...)
 	}
 	return owcrypt.Hash(hashPrevouts, 0, owcrypt.HASH_ALG_DOUBLE_SHA256),
@@ -379,7 +377,7 @@ func (tx Transaction) calcSegwitBytesForSig(unlockData TxUnlock, txid, vout, seq
 		return nil, err
 	}
 
-	sigBytes = append(sigBytes, byte(len(scriptCode)))
+	sigBytes = append(sigBytes, varIntToBytes(len(scriptCode))...)
 	sigBytes = append(sigBytes, scriptCode...)
 
 	sigBytes = append(sigBytes, uint64ToLittleEndianBytes(unlockData.Amount)...)
diff --git a/btcLikeTxDriver/utils.go b/btcLikeTxDriver/utils.go
index 120af24..9e8fbc6 100644
--- a/btcLikeTxDriver/utils.go
+++ b/btcLikeTxDriver/utils.go
@@ -54,3 +54,42 @@ func uint64ToLittleEndianBytes(data uint64) []byte {
 func littleEndianBytesToUint64(data []byte) uint64 {
 	return binary.LittleEndian.Uint64(data)
 }
+
+//varIntToBytes encode a count or a length as variable length integer
+func varIntToBytes(data int) []byte {
+	if data < 0xFD {
+		return []byte{byte(data)}
+	} else if data <= 0xFFFF {
+		return []byte{0xFD, byte(data), byte(data >> 8)}
+	}
+	return append([]byte{0xFE}, uint32ToLittleEndianBytes(uint32(data))...)
+}
+
+//readVarInt decode a variable length integer, return the value and the index of the next byte
+func readVarInt(data []byte, index int) (int, int, error) {
+	if index < 0 || index+1 > len(data) {
+		return 0, 0, errors.New("Invalid transaction data length!")
+	}
+	value := int(data[index])
+	index++
+	if value == 0xFD {
+		if index+2 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(binary.LittleEndian.Uint16(data[index : index+2]))
+		if value < 0xFD {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 2, nil
+	} else if value > 0xFD {
+		if value == 0xFF || index+4 > len(data) {
+			return 0, 0, errors.New("Invalid transaction data length!")
+		}
+		value = int(littleEndianBytesToUint32(data[index : index+4]))
+		if value <= 0xFFFF {
+			return 0, 0, errors.New("Invalid transaction data!")
+		}
+		return value, index + 4, nil
+	}
+	return value, index, nil
+}
-- 
2.43.0


From e5b8ad0cdc53e7b7e2200d638a2089ee24a81c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:06 +0000
Subject: [PATCH 059/132] fix: btcLikeTxDriver panicked on malformed scripts,
 keys and missing signatures

---
 btcLikeTxDriver/transaction.go |  7 +++++++
 btcLikeTxDriver/txStruct.go    | 16 +++++++++++-----
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index 5cbfd8f..838daab 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -177,6 +177,10 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 		return "", errors.New("The number of transaction inputs and the unlock data are not match!")
 	}
 
+	if !isMultiSig(unlockData[0].LockScript, unlockData[0].RedeemScript) && len(emptyTrans.Vins) != len(sigPub) {
+		return "", errors.New("The number of transaction inputs and the signatures are not match!")
+	}
+
 	if isMultiSig(unlockData[0].LockScript, unlockData[0].RedeemScript) {
 		redeemBytes, _ := hex.DecodeString(unlockData[0].RedeemScript)
 		emptyTrans.Vins[0].ScriptPubkeySignature = redeemBytes
@@ -275,6 +279,9 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock) bool {
 				if strings.Index(unlockData[i].LockScript, "0014") == 0 {
 					continue
 				}
+				if len(signedTrans.Vins[i].ScriptPubkeySignature) < 1 {
+					return false
+				}
 				unlockData[i].RedeemScript = hex.EncodeToString(signedTrans.Vins[i].ScriptPubkeySignature[1:])
 			}
 		}
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index 9d42e42..d59ec94 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -299,11 +299,11 @@ func isScriptHash(script []byte) bool {
 }
 
 func checkScriptType(script []byte) int {
-	if script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
+	if len(script) == 25 && script[0] == OpCodeDup && script[1] == OpCodeHash160 && script[2] == 0x14 && script[23] == OpCodeEqualVerify && script[24] == OpCodeCheckSig {
 		return TypeP2PKH
-	} else if script[0] == OpCodeHash160 && script[1] == 0x14 && script[22] == OpCodeEqual {
+	} else if len(script) == 23 && script[0] == OpCodeHash160 && script[1] == 0x14 && script[22] == OpCodeEqual {
 		return TypeP2SH
-	} else if script[0] == 0x00 && script[1] == 0x14 {
+	} else if len(script) == 22 && script[0] == 0x00 && script[1] == 0x14 {
 		return TypeBech32
 	} else {
 		return -1
@@ -340,6 +340,9 @@ func genScriptCodeFromRedeemScript(redeem string) ([]byte, error) {
 	}
 
 	ret := []byte{}
+	if len(redeemBytes) < 22 {
+		return nil, errors.New("Invalid redeem script!")
+	}
 	if redeemBytes[0] == 0x00 && redeemBytes[1] == 0x14 {
 		ret = redeemBytes[2:]
 
@@ -443,8 +446,11 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 func verifyHashes(hashes [][]byte, sigPub []SignaturePubkey) bool {
 
 	for i := 0; i < len(sigPub); i++ {
-		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
-		if owcrypt.Verify(pubkey, nil, hashes[i], sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
+		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) != 65 {
+			return false
+		}
+		if owcrypt.Verify(pubkey[1:], nil, hashes[i], sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) != owcrypt.SUCCESS {
 			return false
 		}
 	}
-- 
2.43.0


From 175ca778559f85451f28dfc522d2dcaa555c61da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:42 +0000
Subject: [PATCH 060/132] fix: btcLikeTxDriver multisignature witnesses were
 only correct for two signatures and one input

---
 btcLikeTxDriver/transaction.go | 8 ++++++++
 btcLikeTxDriver/txStruct.go    | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index 838daab..7b3e627 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -183,6 +183,14 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 
 	if isMultiSig(unlockData[0].LockScript, unlockData[0].RedeemScript) {
 		redeemBytes, _ := hex.DecodeString(unlockData[0].RedeemScript)
+		if len(emptyTrans.Vins) != 1 || len(sigPub) != int(redeemBytes[0]-OpCode_1)+1 {
+			return "", errors.New("The multisig transaction needs one input and exactly the required signatures!")
+		}
+		for i := 0; i < len(sigPub); i++ {
+			if len(sigPub[i].Signature) != 64 || len(sigPub[i].Pubkey) != 33 {
+				return "", errors.New("Invalid signature or pubkey data for multisig!")
+			}
+		}
 		emptyTrans.Vins[0].ScriptPubkeySignature = redeemBytes
 		for i := 0; i < len(sigPub); i++ {
 			emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index d59ec94..f938f12 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -82,7 +82,7 @@ func (t Transaction) encodeToBytes() ([]byte, error) {
 			ret = append(ret, out.lockScript...)
 		}
 
-		ret = append(ret, byte(0x04), 0x00)
+		ret = append(ret, byte(len(t.Witness)+2), 0x00)
 		for _, w := range t.Witness {
 			if w.Signature == nil {
 				return nil, errors.New("Miss signature data for a multisig transaction!")
-- 
2.43.0


From 50bdc2d53524f7a18bc117c94fc8fc09e44079ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:42 +0000
Subject: [PATCH 061/132] fix: btcLikeTxDriver merged P2SH inputs without
 redeem script as public key hash spends

---
 btcLikeTxDriver/transaction.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index 7b3e627..14d4f9d 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -205,13 +205,16 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 				return "", errors.New("Invalid pubkey data!")
 			}
 
-			// bech32 branch
-			if unlockData[i].RedeemScript == "" && strings.Index(unlockData[i].LockScript, "0014") == 0 {
-				unlockData[i].RedeemScript = unlockData[i].LockScript
-				unlockData[i].LockScript = "00"
+			lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+			if err != nil {
+				return "", errors.New("Invalid lock script!")
+			}
+			scriptType := checkScriptType(lockBytes)
+			if scriptType == -1 {
+				return "", errors.New("Unknown type of lockscript!")
 			}
 
-			if unlockData[i].RedeemScript == "" {
+			if scriptType == TypeP2PKH {
 
 				emptyTrans.Vins[i].ScriptPubkeySignature = sigPub[i].encodeToScript(SigHashAll)
 				if emptyTrans.Witness != nil {
@@ -224,17 +227,16 @@ func InsertSignatureIntoEmptyTransaction(txHex string, sigPub []SignaturePubkey,
 					}
 				}
 				emptyTrans.Witness = append(emptyTrans.Witness, TxWitness{sigPub[i].Signature, sigPub[i].Pubkey})
-				if unlockData[i].RedeemScript == "" {
-					return "", errors.New("Missing redeem script for a P2SH input!")
-				}
-
-				if unlockData[i].LockScript == "00" {
+				if scriptType == TypeBech32 {
 					emptyTrans.Vins[i].ScriptPubkeySignature = nil
 				} else {
 					redeem, err := hex.DecodeString(unlockData[i].RedeemScript)
 					if err != nil {
 						return "", errors.New("Invlalid redeem script!")
 					}
+					if len(redeem) != 22 {
+						return "", errors.New("Missing redeem script for a P2SH input!")
+					}
 					redeem = append([]byte{byte(len(redeem))}, redeem...)
 					emptyTrans.Vins[i].ScriptPubkeySignature = redeem
 				}
-- 
2.43.0


From 83641635367201ea6c56ed6b1d8349a465ccaecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:42 +0000
Subject: [PATCH 062/132] fix: btcLikeTxDriver verification accepted keys and
 scripts that do not belong to the spent outputs

---
 btcLikeTxDriver/transaction.go | 63 +++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index 14d4f9d..e1f2f1d 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -1,9 +1,11 @@
 package btcLikeTxDriver
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
-	"strings"
+
+	"github.com/blocktree/go-owcrypt"
 )
 
 type Vin struct {
@@ -268,33 +270,46 @@ func VerifyRawTransaction(txHex string, unlockData []TxUnlock) bool {
 	}
 
 	var sigAndPub []SignaturePubkey
-	if signedTrans.Witness == nil {
-		for _, sp := range signedTrans.Vins {
-			tmp, err := decodeFromScriptBytes(sp.ScriptPubkeySignature)
-			if err != nil {
+	for i := 0; i < len(signedTrans.Vins); i++ {
+		lockBytes, err := hex.DecodeString(unlockData[i].LockScript)
+		if err != nil {
+			return false
+		}
+		script := signedTrans.Vins[i].ScriptPubkeySignature
+		hasWitness := signedTrans.Witness != nil && signedTrans.Witness[i].Signature != nil
+		var sigPub SignaturePubkey
+		var pubkeyHash []byte
+		switch checkScriptType(lockBytes) {
+		case TypeP2PKH:
+			tmp, err := decodeFromScriptBytes(script)
+			if err != nil || hasWitness {
 				return false
 			}
-			sigAndPub = append(sigAndPub, *tmp)
-		}
-	} else {
-		for i := 0; i < len(signedTrans.Vins); i++ {
-			if signedTrans.Witness[i].Signature == nil {
-				tmp, err := decodeFromScriptBytes(signedTrans.Vins[i].ScriptPubkeySignature)
-				if err != nil {
-					return false
-				}
-				sigAndPub = append(sigAndPub, *tmp)
-			} else {
-				sigAndPub = append(sigAndPub, SignaturePubkey{signedTrans.Witness[i].Signature, signedTrans.Witness[i].Pubkey})
-				if strings.Index(unlockData[i].LockScript, "0014") == 0 {
-					continue
-				}
-				if len(signedTrans.Vins[i].ScriptPubkeySignature) < 1 {
-					return false
-				}
-				unlockData[i].RedeemScript = hex.EncodeToString(signedTrans.Vins[i].ScriptPubkeySignature[1:])
+			sigPub = *tmp
+			pubkeyHash = lockBytes[3:23]
+		case TypeP2SH:
+			if !hasWitness || len(script) != 23 || script[0] != 0x16 || script[1] != 0x00 || script[2] != 0x14 {
+				return false
 			}
+			if !bytes.Equal(owcrypt.Hash(script[1:], 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) {
+				return false
+			}
+			sigPub = SignaturePubkey{signedTrans.Witness[i].Signature, signedTrans.Witness[i].Pubkey}
+			pubkeyHash = script[3:]
+			unlockData[i].RedeemScript = hex.EncodeToString(script[1:])
+		case TypeBech32:
+			if !hasWitness || len(script) != 0 {
+				return false
+			}
+			sigPub = SignaturePubkey{signedTrans.Witness[i].Signature, signedTrans.Witness[i].Pubkey}
+			pubkeyHash = lockBytes[2:22]
+		default:
+			return false
+		}
+		if !bytes.Equal(owcrypt.Hash(sigPub.Pubkey, 0, owcrypt.HASH_ALG_HASH160), pubkeyHash) {
+			return false
 		}
+		sigAndPub = append(sigAndPub, sigPub)
 	}
 
 	signedTrans.Witness = nil
-- 
2.43.0


From 8e22c37ad7ede70ac9dc05d3e8428e5ee5b6a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:21 +0000
Subject: [PATCH 063/132] fix: btcLikeTxDriver DecodeRawTransaction overwrote
 the bytes of its caller

---
 btcLikeTxDriver/signaturepubkey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btcLikeTxDriver/signaturepubkey.go b/btcLikeTxDriver/signaturepubkey.go
index b8720c6..440cd7b 100644
--- a/btcLikeTxDriver/signaturepubkey.go
+++ b/btcLikeTxDriver/signaturepubkey.go
@@ -151,7 +151,7 @@ func decodeFromScriptBytes(script []byte) (*SignaturePubkey, error) {
 	if script[index]&0x80 != 0 || (rLen == 0x21 && script[index] != 0x00) || (rLen > 1 && script[index] == 0x00 && script[index+1]&0x80 != 0x80) {
 		return nil, errors.New("Invalid signature data!")
 	}
-	ret.Signature = script[index : index+int(rLen)]
+	ret.Signature = append([]byte{}, script[index:index+int(rLen)]...)
 	if rLen == 0x21 {
 		ret.Signature = ret.Signature[1:]
 	}
-- 
2.43.0


From 03771d146adf3869bacef24f845ed293ed53ef14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:21 +0000
Subject: [PATCH 064/132] fix: btcLikeTxDriver signed multisignature inputs
 with a single signature

---
 btcLikeTxDriver/transaction.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btcLikeTxDriver/transaction.go b/btcLikeTxDriver/transaction.go
index e1f2f1d..8753d06 100644
--- a/btcLikeTxDriver/transaction.go
+++ b/btcLikeTxDriver/transaction.go
@@ -108,6 +108,9 @@ func SignEmptyRawTransaction(txHex string, unlockData []TxUnlock) (string, error
 				if err != nil {
 					return "", errors.New("Invalid redeem script!")
 				}
+				if len(redeemScript) != 22 {
+					return "", errors.New("Only pay to witness pubkey hash is supported for a P2SH input!")
+				}
 				redeemScript = append([]byte{byte(len(redeemScript))}, redeemScript...)
 				emptyTrans.Vins[i].ScriptPubkeySignature = redeemScript
 			}
-- 
2.43.0


From bec1bd4e29b27dca95cbeee7388453f78ce73603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:34 +0000
Subject: [PATCH 065/132] fix: verifying a multisignature spend with fewer
 signatures than half of the keys panicked

---
 bitcoincashTransaction/txMultiSig.go | 2 +-
 bitcoinsvTransaction/txMultiSig.go   | 2 +-
 btcTransaction/txMultiSig.go         | 2 +-
 cxcTransaction/txMultiSig.go         | 2 +-
 hcTransaction/txMultiSig.go          | 2 +-
 omniTransaction/txMultiSig.go        | 2 +-
 zencashTransaction/txMultiSig.go     | 2 +-
 7 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/bitcoincashTransaction/txMultiSig.go b/bitcoincashTransaction/txMultiSig.go
index 61d40eb..00a7437 100644
--- a/bitcoincashTransaction/txMultiSig.go
+++ b/bitcoincashTransaction/txMultiSig.go
@@ -206,7 +206,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/bitcoinsvTransaction/txMultiSig.go b/bitcoinsvTransaction/txMultiSig.go
index 6e9af76..224ef47 100644
--- a/bitcoinsvTransaction/txMultiSig.go
+++ b/bitcoinsvTransaction/txMultiSig.go
@@ -206,7 +206,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/btcTransaction/txMultiSig.go b/btcTransaction/txMultiSig.go
index 6fca90b..8575f64 100644
--- a/btcTransaction/txMultiSig.go
+++ b/btcTransaction/txMultiSig.go
@@ -206,7 +206,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/cxcTransaction/txMultiSig.go b/cxcTransaction/txMultiSig.go
index 0d9aa50..d1f6861 100644
--- a/cxcTransaction/txMultiSig.go
+++ b/cxcTransaction/txMultiSig.go
@@ -206,7 +206,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/hcTransaction/txMultiSig.go b/hcTransaction/txMultiSig.go
index 8c30164..9045d20 100644
--- a/hcTransaction/txMultiSig.go
+++ b/hcTransaction/txMultiSig.go
@@ -206,7 +206,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/omniTransaction/txMultiSig.go b/omniTransaction/txMultiSig.go
index f283104..a9f3681 100644
--- a/omniTransaction/txMultiSig.go
+++ b/omniTransaction/txMultiSig.go
@@ -205,7 +205,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
diff --git a/zencashTransaction/txMultiSig.go b/zencashTransaction/txMultiSig.go
index ba891ef..1099230 100644
--- a/zencashTransaction/txMultiSig.go
+++ b/zencashTransaction/txMultiSig.go
@@ -206,7 +206,7 @@ func decodeMultiBytes(script []byte) ([]SignaturePubkey, []byte, error) {
 	pscript := script[index : len(script)-2]
 
 	if pubkeys > len(sp) {
-		for i := 0; i < pubkeys-len(sp); i++ {
+		for len(sp) < pubkeys {
 			sp = append(sp, SignaturePubkey{nil, nil})
 			st = append(st, 0)
 		}
-- 
2.43.0


From d686c42b76d4111575c73a6fea4d711c2fa52681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:20 +0000
Subject: [PATCH 066/132] fix: legacy multisignature outputs were hashed and
 verified as witness outputs

---
 btcTransaction/txHash.go | 3 +++
 cxcTransaction/txHash.go | 3 +++
 hcTransaction/txHash.go  | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/btcTransaction/txHash.go b/btcTransaction/txHash.go
index b568399..e3c358f 100644
--- a/btcTransaction/txHash.go
+++ b/btcTransaction/txHash.go
@@ -225,6 +225,9 @@ func (t Transaction) getBytesForSig(lockBytes, redeemBytes []byte, inType, sigTy
 	} else if inType == TypeMultiSig {
 		if sigType == SigHashAll {
 			if SegwitON {
+				if byteArrayCompare(owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) {
+					return nil, errors.New("Legacy multisig lockScript found while SegwitON is set to true!")
+				}
 				sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
 				if err != nil {
 					return nil, err
diff --git a/cxcTransaction/txHash.go b/cxcTransaction/txHash.go
index 06ba4d2..2818a53 100644
--- a/cxcTransaction/txHash.go
+++ b/cxcTransaction/txHash.go
@@ -224,6 +224,9 @@ func (t Transaction) getBytesForSig(lockBytes, redeemBytes []byte, inType, sigTy
 	} else if inType == TypeMultiSig {
 		if sigType == SigHashAll {
 			if SegwitON {
+				if byteArrayCompare(owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) {
+					return nil, errors.New("Legacy multisig lockScript found while SegwitON is set to true!")
+				}
 				sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
 				if err != nil {
 					return nil, err
diff --git a/hcTransaction/txHash.go b/hcTransaction/txHash.go
index 7455b1e..d73aaeb 100644
--- a/hcTransaction/txHash.go
+++ b/hcTransaction/txHash.go
@@ -225,6 +225,9 @@ func (t Transaction) getBytesForSig(lockBytes, redeemBytes []byte, inType, sigTy
 	} else if inType == TypeMultiSig {
 		if sigType == SigHashAll {
 			if SegwitON {
+				if byteArrayCompare(owcrypt.Hash(redeemBytes, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) {
+					return nil, errors.New("Legacy multisig lockScript found while SegwitON is set to true!")
+				}
 				sigBytes, err = t.getSegwitBytesForSig(redeemBytes, t.Vins[index].TxID, t.Vins[index].Vout, t.Vins[index].sequence, sigType, amount)
 				if err != nil {
 					return nil, err
-- 
2.43.0


From 0ce2efc7f0db2f882c971f52d86e9a0da21bc380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:10 +0000
Subject: [PATCH 067/132] fix: aliencoin, verge and vollar wrote non-canonical
 DER for short signature values

---
 aliencoinTransaction/txSigPub.go | 4 ++--
 vergeTransaction/txSigPub.go     | 4 ++--
 vollarTransaction/txSigPub.go    | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index e36fdda..65d7f8d 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -43,7 +43,7 @@ func (sp SigPub) ToBytes() []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[i] == 0 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -54,7 +54,7 @@ func (sp SigPub) ToBytes() []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[i] == 0 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/vergeTransaction/txSigPub.go b/vergeTransaction/txSigPub.go
index da17646..ef7ac74 100644
--- a/vergeTransaction/txSigPub.go
+++ b/vergeTransaction/txSigPub.go
@@ -43,7 +43,7 @@ func (sp SigPub) ToBytes() []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -54,7 +54,7 @@ func (sp SigPub) ToBytes() []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
diff --git a/vollarTransaction/txSigPub.go b/vollarTransaction/txSigPub.go
index b919b89..e18a2e6 100644
--- a/vollarTransaction/txSigPub.go
+++ b/vollarTransaction/txSigPub.go
@@ -43,7 +43,7 @@ func (sp SigPub) ToBytes() []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -54,7 +54,7 @@ func (sp SigPub) ToBytes() []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
-- 
2.43.0


From eaac846761881b1f854a82d96b7290397b2e7648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:10 +0000
Subject: [PATCH 068/132] fix: aliencoin, verge and vollar shortened small
 low-S values

---
 aliencoinTransaction/txSigPub.go | 8 +++-----
 vergeTransaction/txSigPub.go     | 8 +++-----
 vollarTransaction/txSigPub.go    | 8 +++-----
 3 files changed, 9 insertions(+), 15 deletions(-)

diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index 65d7f8d..5852bb5 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -26,12 +26,10 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
-		return append(sig[:32], s...)
+		return append(append([]byte{}, sig[:32]...), s...)
 	}
 	return sig
 }
diff --git a/vergeTransaction/txSigPub.go b/vergeTransaction/txSigPub.go
index ef7ac74..b5f5f65 100644
--- a/vergeTransaction/txSigPub.go
+++ b/vergeTransaction/txSigPub.go
@@ -26,12 +26,10 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
-		return append(sig[:32], s...)
+		return append(append([]byte{}, sig[:32]...), s...)
 	}
 	return sig
 }
diff --git a/vollarTransaction/txSigPub.go b/vollarTransaction/txSigPub.go
index e18a2e6..f25911d 100644
--- a/vollarTransaction/txSigPub.go
+++ b/vollarTransaction/txSigPub.go
@@ -26,12 +26,10 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
-		return append(sig[:32], s...)
+		return append(append([]byte{}, sig[:32]...), s...)
 	}
 	return sig
 }
-- 
2.43.0


From b8b90550665313dfe7d9b5962116f4c511eb8862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:10 +0000
Subject: [PATCH 069/132] fix: aliencoin, verge and vollar accepted ids,
 scripts and counts that their format cannot hold

---
 aliencoinTransaction/txIn.go     | 4 ++--
 aliencoinTransaction/txStruct.go | 3 +++
 vergeTransaction/txIn.go         | 4 ++--
 vergeTransaction/txStruct.go     | 3 +++
 vollarTransaction/txIn.go        | 4 ++--
 vollarTransaction/txStruct.go    | 3 +++
 6 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/aliencoinTransaction/txIn.go b/aliencoinTransaction/txIn.go
index 0d1c7d6..fce3ed0 100644
--- a/aliencoinTransaction/txIn.go
+++ b/aliencoinTransaction/txIn.go
@@ -16,14 +16,14 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
 	vout := make([]byte, 4)
 	binary.LittleEndian.PutUint32(vout[:], in.Vout)
 	lockScript, err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockScript) >= 0xfd {
 		return nil, errors.New("invalid lock script!")
 	}
 	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
diff --git a/aliencoinTransaction/txStruct.go b/aliencoinTransaction/txStruct.go
index 5847351..306adb9 100644
--- a/aliencoinTransaction/txStruct.go
+++ b/aliencoinTransaction/txStruct.go
@@ -20,6 +20,9 @@ type TxStruct struct {
 }
 
 func NewTxStruct(vins []Vin, vouts []Vout, lockTime uint32) (*TxStruct, error) {
+	if len(vins) == 0 || len(vouts) == 0 || len(vins) >= 0xfd || len(vouts) >= 0xfd {
+		return nil, errors.New("unsupported count of inputs or outputs!")
+	}
 	ret := TxStruct{Version: DefaultTxVersion}
 
 	ret.LockTime = uint32ToLittleEndianBytes(lockTime)
diff --git a/vergeTransaction/txIn.go b/vergeTransaction/txIn.go
index bb6dc21..dc90841 100644
--- a/vergeTransaction/txIn.go
+++ b/vergeTransaction/txIn.go
@@ -16,14 +16,14 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
 	vout := make([]byte, 4)
 	binary.LittleEndian.PutUint32(vout[:], in.Vout)
 	lockScript, err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockScript) >= 0xfd {
 		return nil, errors.New("invalid lock script!")
 	}
 	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
diff --git a/vergeTransaction/txStruct.go b/vergeTransaction/txStruct.go
index 08f324f..4b0f984 100644
--- a/vergeTransaction/txStruct.go
+++ b/vergeTransaction/txStruct.go
@@ -21,6 +21,9 @@ type TxStruct struct {
 }
 
 func NewTxStruct(vins []Vin, vouts []Vout, timeInterval, lockTime uint32) (*TxStruct, error) {
+	if len(vins) == 0 || len(vouts) == 0 || len(vins) >= 0xfd || len(vouts) >= 0xfd {
+		return nil, errors.New("unsupported count of inputs or outputs!")
+	}
 	ret := TxStruct{Version: DefaultTxVersion}
 
 	timeuntil := uint32(time.Now().Unix())
diff --git a/vollarTransaction/txIn.go b/vollarTransaction/txIn.go
index 61b9a11..274a870 100644
--- a/vollarTransaction/txIn.go
+++ b/vollarTransaction/txIn.go
@@ -16,14 +16,14 @@ type TxIn struct {
 
 func (in Vin) NewTxIn() (*TxIn, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid txid!")
 	}
 
 	vout := make([]byte, 4)
 	binary.LittleEndian.PutUint32(vout[:], in.Vout)
 	lockScript, err := hex.DecodeString(in.LockScript)
-	if err != nil {
+	if err != nil || len(lockScript) >= 0xfd {
 		return nil, errors.New("invalid lock script!")
 	}
 	lockScript = append([]byte{byte(len(lockScript))}, lockScript...)
diff --git a/vollarTransaction/txStruct.go b/vollarTransaction/txStruct.go
index a173894..bced144 100644
--- a/vollarTransaction/txStruct.go
+++ b/vollarTransaction/txStruct.go
@@ -20,6 +20,9 @@ type TxStruct struct {
 }
 
 func NewTxStruct(vins []Vin, vouts []Vout) (*TxStruct, error) {
+	if len(vins) == 0 || len(vouts) == 0 || len(vins) >= 0xfd || len(vouts) >= 0xfd {
+		return nil, errors.New("unsupported count of inputs or outputs!")
+	}
 	ret := TxStruct{Version: DefaultTxVersion, Flag: DefaultTxFlag}
 
 	for _, in := range vins {
-- 
2.43.0


From e117d01e0988ca2a8933f8aed60b25165b192a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:10 +0000
Subject: [PATCH 070/132] fix: aliencoin, verge and vollar panicked on
 malformed public keys and signatures

---
 aliencoinTransaction/transaction.go |  9 ++++++++-
 aliencoinTransaction/txStruct.go    |  5 ++++-
 vergeTransaction/transaction.go     |  9 ++++++++-
 vergeTransaction/txStruct.go        |  5 ++++-
 vollarTransaction/transaction.go    | 11 +++++++++--
 5 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/aliencoinTransaction/transaction.go b/aliencoinTransaction/transaction.go
index 659d15b..e2ba4a2 100644
--- a/aliencoinTransaction/transaction.go
+++ b/aliencoinTransaction/transaction.go
@@ -64,7 +64,14 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	}
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
-		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+		if len(sigPubs[index].Signature) != 64 {
+			return false, "", errors.New("invalid signature!")
+		}
+		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) == 0 {
+			return false, "", errors.New("invalid public key!")
+		}
+		pubkey = pubkey[1:]
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
diff --git a/aliencoinTransaction/txStruct.go b/aliencoinTransaction/txStruct.go
index 306adb9..bccc037 100644
--- a/aliencoinTransaction/txStruct.go
+++ b/aliencoinTransaction/txStruct.go
@@ -189,7 +189,10 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 
 	for i := 0; i < len(txStruct.Vin); i++ {
-		lock, _ := hex.DecodeString(dataArray[i+1])
+		lock, err := hex.DecodeString(dataArray[i+1])
+		if err != nil || len(lock) >= 0xfd {
+			return nil, nil, errors.New("invalid lock script!")
+		}
 		lock = append([]byte{byte(len(lock))}, lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
diff --git a/vergeTransaction/transaction.go b/vergeTransaction/transaction.go
index 3663478..55e72fa 100644
--- a/vergeTransaction/transaction.go
+++ b/vergeTransaction/transaction.go
@@ -64,7 +64,14 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 	}
 	for index := 0; index < len(sigPubs); index++ {
 		hashBytes, _ := hex.DecodeString(hashes[index])
-		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+		if len(sigPubs[index].Signature) != 64 {
+			return false, "", errors.New("invalid signature!")
+		}
+		pubkey := owcrypt.PointDecompress(sigPubs[index].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) == 0 {
+			return false, "", errors.New("invalid public key!")
+		}
+		pubkey = pubkey[1:]
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
diff --git a/vergeTransaction/txStruct.go b/vergeTransaction/txStruct.go
index 4b0f984..98dd4fd 100644
--- a/vergeTransaction/txStruct.go
+++ b/vergeTransaction/txStruct.go
@@ -202,7 +202,10 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 	}
 
 	for i := 0; i < len(txStruct.Vin); i++ {
-		lock, _ := hex.DecodeString(dataArray[i+1])
+		lock, err := hex.DecodeString(dataArray[i+1])
+		if err != nil || len(lock) >= 0xfd {
+			return nil, nil, errors.New("invalid lock script!")
+		}
 		lock = append([]byte{byte(len(lock))}, lock...)
 		txStruct.Vin[i].LockScript = lock
 	}
diff --git a/vollarTransaction/transaction.go b/vollarTransaction/transaction.go
index 6a52069..41ee3af 100644
--- a/vollarTransaction/transaction.go
+++ b/vollarTransaction/transaction.go
@@ -61,7 +61,7 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 	}
 	for index := 0; index < len(lockScripts); index++ {
 		ls, err := hex.DecodeString(lockScripts[index])
-		if err != nil {
+		if err != nil || len(ls) >= 0xfd {
 			return false, "", errors.New("invalid lock script!")
 		}
 		trans.Vin[index].LockScript = append([]byte{byte(len(ls))}, ls...)
@@ -76,7 +76,14 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 
 	for i := 0; i < len(sigPub); i++ {
 		hash, _ := hex.DecodeString(hashes[i])
-		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+		if len(sigPub[i].Signature) != 64 {
+			return false, "", errors.New("invalid signature!")
+		}
+		pubkey := owcrypt.PointDecompress(sigPub[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) == 0 {
+			return false, "", errors.New("invalid public key!")
+		}
+		pubkey = pubkey[1:]
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			pass = false
 		}
-- 
2.43.0


From 762ab6c1b7fd9e024f53d155e091b0cc34287331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:10 +0000
Subject: [PATCH 071/132] fix: aliencoin, verge and vollar combined signatures
 of keys that do not own the inputs

---
 aliencoinTransaction/transaction.go |  3 +++
 aliencoinTransaction/txSigPub.go    | 12 ++++++++++++
 vergeTransaction/transaction.go     |  3 +++
 vergeTransaction/txSigPub.go        | 12 ++++++++++++
 vollarTransaction/transaction.go    |  9 +++++----
 vollarTransaction/txSigPub.go       | 12 ++++++++++++
 6 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/aliencoinTransaction/transaction.go b/aliencoinTransaction/transaction.go
index e2ba4a2..c3f94bf 100644
--- a/aliencoinTransaction/transaction.go
+++ b/aliencoinTransaction/transaction.go
@@ -75,6 +75,9 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
+		if !sigPubs[index].unlocks(txStruct.Vin[index].LockScript) {
+			return false, "", errors.New("public key does not own the input!")
+		}
 		txStruct.Vin[index].SigPub = &sigPubs[index]
 	}
 
diff --git a/aliencoinTransaction/txSigPub.go b/aliencoinTransaction/txSigPub.go
index 5852bb5..6f0a15d 100644
--- a/aliencoinTransaction/txSigPub.go
+++ b/aliencoinTransaction/txSigPub.go
@@ -1,8 +1,11 @@
 package aliencoinTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
+
+	owcrypt "github.com/blocktree/go-owcrypt"
 )
 
 const DefaultSigType = byte(1) //all
@@ -34,6 +37,15 @@ func serilizeS(sig []byte) []byte {
 	return sig
 }
 
+// unlocks tells whether the public key is the one a pay-to-pubkey-hash script
+// (with its length byte) asks for. Other scripts name no key.
+func (sp SigPub) unlocks(lockScript []byte) bool {
+	if len(lockScript) != 26 || lockScript[1] != 0x76 || lockScript[2] != 0xa9 || lockScript[3] != 0x14 || lockScript[24] != 0x88 || lockScript[25] != 0xac {
+		return true
+	}
+	return bytes.Equal(lockScript[4:24], owcrypt.Hash(sp.Pubkey, 0, owcrypt.HASH_ALG_HASH160))
+}
+
 func (sp SigPub) ToBytes() []byte {
 	r := sp.Signature[:32]
 	s := sp.Signature[32:]
diff --git a/vergeTransaction/transaction.go b/vergeTransaction/transaction.go
index 55e72fa..c672c0b 100644
--- a/vergeTransaction/transaction.go
+++ b/vergeTransaction/transaction.go
@@ -75,6 +75,9 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPubs []SigPub) (bool, str
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sigPubs[index].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, "", errors.New("verify transaction failed!")
 		}
+		if !sigPubs[index].unlocks(txStruct.Vin[index].LockScript) {
+			return false, "", errors.New("public key does not own the input!")
+		}
 		txStruct.Vin[index].SigPub = &sigPubs[index]
 	}
 
diff --git a/vergeTransaction/txSigPub.go b/vergeTransaction/txSigPub.go
index b5f5f65..ae0aac6 100644
--- a/vergeTransaction/txSigPub.go
+++ b/vergeTransaction/txSigPub.go
@@ -1,8 +1,11 @@
 package vergeTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
+
+	owcrypt "github.com/blocktree/go-owcrypt"
 )
 
 const DefaultSigType = byte(1) //all
@@ -34,6 +37,15 @@ func serilizeS(sig []byte) []byte {
 	return sig
 }
 
+// unlocks tells whether the public key is the one a pay-to-pubkey-hash script
+// (with its length byte) asks for. Other scripts name no key.
+func (sp SigPub) unlocks(lockScript []byte) bool {
+	if len(lockScript) != 26 || lockScript[1] != 0x76 || lockScript[2] != 0xa9 || lockScript[3] != 0x14 || lockScript[24] != 0x88 || lockScript[25] != 0xac {
+		return true
+	}
+	return bytes.Equal(lockScript[4:24], owcrypt.Hash(sp.Pubkey, 0, owcrypt.HASH_ALG_HASH160))
+}
+
 func (sp SigPub) ToBytes() []byte {
 	r := sp.Signature[:32]
 	s := sp.Signature[32:]
diff --git a/vollarTransaction/transaction.go b/vollarTransaction/transaction.go
index 41ee3af..2487d33 100644
--- a/vollarTransaction/transaction.go
+++ b/vollarTransaction/transaction.go
@@ -72,8 +72,6 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 		return false, "", err
 	}
 
-	pass := true
-
 	for i := 0; i < len(sigPub); i++ {
 		hash, _ := hex.DecodeString(hashes[i])
 		if len(sigPub[i].Signature) != 64 {
@@ -85,7 +83,10 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 		}
 		pubkey = pubkey[1:]
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
-			pass = false
+			return false, "", nil
+		}
+		if !sigPub[i].unlocks(trans.Vin[i].LockScript) {
+			return false, "", nil
 		}
 		trans.Vin[i].SigPub = &sigPub[i]
 	}
@@ -94,5 +95,5 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub []SigPub) (bool, s
 	for index := 0; index < 82+len(trans.Vin); index++ {
 		txBytes = append(txBytes, byte(0))
 	}
-	return pass, hex.EncodeToString(txBytes), nil
+	return true, hex.EncodeToString(txBytes), nil
 }
diff --git a/vollarTransaction/txSigPub.go b/vollarTransaction/txSigPub.go
index f25911d..f71c848 100644
--- a/vollarTransaction/txSigPub.go
+++ b/vollarTransaction/txSigPub.go
@@ -1,8 +1,11 @@
 package vollarTransaction
 
 import (
+	"bytes"
 	"errors"
 	"math/big"
+
+	owcrypt "github.com/blocktree/go-owcrypt"
 )
 
 const DefaultSigType = byte(1) //all
@@ -34,6 +37,15 @@ func serilizeS(sig []byte) []byte {
 	return sig
 }
 
+// unlocks tells whether the public key is the one a pay-to-pubkey-hash script
+// (with its length byte) asks for. Other scripts name no key.
+func (sp SigPub) unlocks(lockScript []byte) bool {
+	if len(lockScript) != 26 || lockScript[1] != 0x76 || lockScript[2] != 0xa9 || lockScript[3] != 0x14 || lockScript[24] != 0x88 || lockScript[25] != 0xac {
+		return true
+	}
+	return bytes.Equal(lockScript[4:24], owcrypt.Hash(sp.Pubkey, 0, owcrypt.HASH_ALG_HASH160))
+}
+
 func (sp SigPub) ToBytes() []byte {
 	r := sp.Signature[:32]
 	s := sp.Signature[32:]
-- 
2.43.0


From 873553d34ab41b7c8529ee85b68380988ebe65ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:02 +0000
Subject: [PATCH 072/132] fix: hypercash and mateverse dropped the low-S form
 of the signature they computed

---
 hypercashTransaction/transaction.go | 4 +---
 hypercashTransaction/txSignature.go | 8 +++-----
 mateverseTransaction/transaction.go | 4 +---
 mateverseTransaction/txUtils.go     | 8 +++-----
 4 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/hypercashTransaction/transaction.go b/hypercashTransaction/transaction.go
index 0af3a30..dfafc07 100644
--- a/hypercashTransaction/transaction.go
+++ b/hypercashTransaction/transaction.go
@@ -120,9 +120,7 @@ func SignTransaction(hashStr string, prikey []byte) ([]byte, error) {
 	if retCode != owcrypt.SUCCESS {
 		return nil, errors.New("Failed in signature!")
 	}
-	serilizeS(signature)
-
-	return signature, nil
+	return serilizeS(signature), nil
 }
 
 func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, string) {
diff --git a/hypercashTransaction/txSignature.go b/hypercashTransaction/txSignature.go
index 8a812a6..1fb19b0 100644
--- a/hypercashTransaction/txSignature.go
+++ b/hypercashTransaction/txSignature.go
@@ -18,12 +18,10 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
-		return append(sig[:32], s...)
+		return append(append([]byte{}, sig[:32]...), s...)
 	}
 	return sig
 }
diff --git a/mateverseTransaction/transaction.go b/mateverseTransaction/transaction.go
index 6dd9341..5069d2b 100644
--- a/mateverseTransaction/transaction.go
+++ b/mateverseTransaction/transaction.go
@@ -68,9 +68,7 @@ func SignTransaction(hash string, prikey []byte) (string, error) {
 		return "", errors.New("Failed to sign transaction!")
 	}
 
-	serilizeS(signature)
-
-	return hex.EncodeToString(signature), nil
+	return hex.EncodeToString(serilizeS(signature)), nil
 }
 
 func VerifyAndCombineTransaction(emptyTrans string, inputs []*TxInput) (bool, string) {
diff --git a/mateverseTransaction/txUtils.go b/mateverseTransaction/txUtils.go
index 21d8dd7..5249c1c 100644
--- a/mateverseTransaction/txUtils.go
+++ b/mateverseTransaction/txUtils.go
@@ -89,12 +89,10 @@ func serilizeS(sig []byte) []byte {
 		numS.Sub(numOrder, numS)
 
 		s = numS.Bytes()
-		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
-				s = append([]byte{0x00}, s...)
-			}
+		for len(s) < 32 {
+			s = append([]byte{0x00}, s...)
 		}
-		return append(sig[:32], s...)
+		return append(append([]byte{}, sig[:32]...), s...)
 	}
 	return sig
 }
\ No newline at end of file
-- 
2.43.0


From c62af0ef4b60dc25a54e6ee33ba53045e0d16b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:02 +0000
Subject: [PATCH 073/132] fix: hypercash ignored the tree of the spent output
 and truncated long script lengths

---
 hypercashTransaction/txIn.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hypercashTransaction/txIn.go b/hypercashTransaction/txIn.go
index c50d1fe..6375d09 100644
--- a/hypercashTransaction/txIn.go
+++ b/hypercashTransaction/txIn.go
@@ -25,7 +25,10 @@ func (in Vin) NewTxIn() (*TxIn, error) {
 
 	txIn.Vout = uint32ToLittleEndianBytes(in.Vout)
 
-	txIn.TxTree = TxTreeRegular
+	if in.Tree != TxTreeRegular && in.Tree != TxTreeStake {
+		return nil, errors.New("Invalid transaction tree!")
+	}
+	txIn.TxTree = in.Tree
 
 	txIn.Sequence = []byte{0xff, 0xff, 0xff, 0xff}
 
@@ -38,7 +41,7 @@ func (in Vin) NewTxIn() (*TxIn, error) {
 		return nil, errors.New("Invalid lock script!")
 	}
 
-	txIn.LockScript = append([]byte{byte(len(lockscript))}, lockscript...)
+	txIn.LockScript = append(varIntToBytes(uint64(len(lockscript))), lockscript...)
 
 	return &txIn, nil
 }
-- 
2.43.0


From f35699facbb34081d2319ef23260d2004c99e14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:02 +0000
Subject: [PATCH 074/132] fix: hypercash silently replaced an unsupported
 script version

---
 hypercashTransaction/txOut.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hypercashTransaction/txOut.go b/hypercashTransaction/txOut.go
index c9a0596..3480373 100644
--- a/hypercashTransaction/txOut.go
+++ b/hypercashTransaction/txOut.go
@@ -11,6 +11,9 @@ type TxOut struct {
 func (out Vout) NewTxOut() (*TxOut, error) {
 	var txOut TxOut
 
+	if out.PkScriptVersion != DefaultPkScriptVersion {
+		return nil, errors.New("Unsupported script version!")
+	}
 	txOut.Amount = uint64ToLittleEndianBytes(out.Amount)
 	txOut.PkScriptVersion = uint16ToLittleEndianBytes(DefaultPkScriptVersion)
 
-- 
2.43.0


From 78acf05b405e2b98d0d069ff153b54869dbdaa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:02 +0000
Subject: [PATCH 075/132] fix: hypercash panicked on short transactions,
 malformed keys and signatures

---
 hypercashTransaction/transaction.go | 12 +++++++++++-
 hypercashTransaction/txSignature.go |  4 ++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/hypercashTransaction/transaction.go b/hypercashTransaction/transaction.go
index dfafc07..51d124f 100644
--- a/hypercashTransaction/transaction.go
+++ b/hypercashTransaction/transaction.go
@@ -139,6 +139,9 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 		return false, ""
 	}
 
+	if len(txBytes) < 4 {
+		return false, ""
+	}
 	serilizeFull := uint16ToLittleEndianBytes(TxSerializeFull)
 	if serilizeFull[0] != txBytes[2] || serilizeFull[1] != txBytes[3] {
 		return false, ""
@@ -182,7 +185,14 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 
 		hash := owcrypt.Hash(hashData, 0, owcrypt.HASH_ALG_BLAKE256)
 
-		pubkey := owcrypt.PointDecompress(sigPub[i].PublicKey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+		if sigPub[i] == nil || len(sigPub[i].Signature) != 64 {
+			return false, ""
+		}
+		pubkey := owcrypt.PointDecompress(sigPub[i].PublicKey, owcrypt.ECC_CURVE_SECP256K1)
+		if len(pubkey) == 0 {
+			return false, ""
+		}
+		pubkey = pubkey[1:]
 
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub[i].Signature, owcrypt.ECC_CURVE_SECP256K1) {
 			return false, ""
diff --git a/hypercashTransaction/txSignature.go b/hypercashTransaction/txSignature.go
index 1fb19b0..9e7a747 100644
--- a/hypercashTransaction/txSignature.go
+++ b/hypercashTransaction/txSignature.go
@@ -34,7 +34,7 @@ func (sp SigPub) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -45,7 +45,7 @@ func (sp SigPub) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
-- 
2.43.0


From 2e543b79cc8f54ca2d082272f69675a10ab0fce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:02 +0000
Subject: [PATCH 076/132] fix: hypercash GetVinList misread transactions of
 more than 252 inputs

---
 hypercashTransaction/TxStruct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hypercashTransaction/TxStruct.go b/hypercashTransaction/TxStruct.go
index 6e7a25b..dfcde17 100644
--- a/hypercashTransaction/TxStruct.go
+++ b/hypercashTransaction/TxStruct.go
@@ -136,6 +136,15 @@ func GetVinList(emptyTrans string) ([]Vin, error) {
 	}
 	count := int(tx[index])
 	index ++
+	if count == 0xfd {
+		if index + 2 > limit {
+			return nil, errors.New("Invalid transaction hex!")
+		}
+		count = int(littleEndianBytesToUint16(tx[index:index+2]))
+		index += 2
+	} else if count > 0xfd {
+		return nil, errors.New("Invalid transaction hex!")
+	}
 	if count <= 0 || count != len(trans) - 1{
 		return nil, errors.New("Invalid transaction hex!")
 	}
-- 
2.43.0


From 705355e30e634e7e1366a91f66de0f2f2769b4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:02 +0000
Subject: [PATCH 077/132] fix: hypercash combined signatures of keys that do
 not own the inputs

---
 hypercashTransaction/transaction.go |  6 +++++-
 hypercashTransaction/txSignature.go | 19 ++++++++++++++++++-
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/hypercashTransaction/transaction.go b/hypercashTransaction/transaction.go
index 51d124f..1889dd8 100644
--- a/hypercashTransaction/transaction.go
+++ b/hypercashTransaction/transaction.go
@@ -198,8 +198,12 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []*SigPub) (bool, str
 			return false, ""
 		}
 
+		if !sigPub[i].unlocks(sepStr[0]) {
+			return false, ""
+		}
+
 		sigScript, err := hex.DecodeString(sepStr[1])
-		if err != nil {
+		if err != nil || len(sigScript) != 16 {
 			return false, ""
 		}
 
diff --git a/hypercashTransaction/txSignature.go b/hypercashTransaction/txSignature.go
index 9e7a747..8341e7a 100644
--- a/hypercashTransaction/txSignature.go
+++ b/hypercashTransaction/txSignature.go
@@ -1,6 +1,12 @@
 package hypercashTransaction
 
-import "math/big"
+import (
+	"encoding/hex"
+	"math/big"
+	"strings"
+
+	"github.com/blocktree/go-owcrypt"
+)
 
 
 type SigPub struct {
@@ -27,6 +33,17 @@ func serilizeS(sig []byte) []byte {
 }
 
 
+// unlocks tells whether the public key is the one a pay-to-pubkey-hash script
+// (hex, with its length byte) asks for. Other scripts name no key.
+func (sp SigPub) unlocks(lockScript string) bool {
+	lockScript = strings.ToLower(lockScript)
+	if len(lockScript) != 52 || !strings.HasPrefix(lockScript, "1976a914") || !strings.HasSuffix(lockScript, "88ac") {
+		return true
+	}
+	hash := owcrypt.Hash(owcrypt.Hash(sp.PublicKey, 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_RIPEMD160)
+	return lockScript[8:48] == hex.EncodeToString(hash)
+}
+
 func (sp SigPub) encodeSignatureToScript(sigType byte) []byte {
 	r := sp.Signature[:32]
 	s := sp.Signature[32:]
-- 
2.43.0


From 35fdee5811bc49f873bfc56ed28f445f94fcd6f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:52 +0000
Subject: [PATCH 078/132] fix: elastos accepted transaction and asset ids of
 any length

---
 elastosTransaction/txIn.go  | 2 +-
 elastosTransaction/txOut.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/elastosTransaction/txIn.go b/elastosTransaction/txIn.go
index 94342e6..77cc91f 100644
--- a/elastosTransaction/txIn.go
+++ b/elastosTransaction/txIn.go
@@ -10,7 +10,7 @@ type Input struct {
 
 func (in Vin) NewInput() (*Input, error) {
 	txidBytes, err := reverseHexToBytes(in.TxID)
-	if err != nil {
+	if err != nil || len(txidBytes) != 32 {
 		return nil, errors.New("Invalid previous transaction ID!")
 	}
 	vout := uint16ToLittleEndianBytes(in.Vout)
diff --git a/elastosTransaction/txOut.go b/elastosTransaction/txOut.go
index 29b3251..16edb93 100644
--- a/elastosTransaction/txOut.go
+++ b/elastosTransaction/txOut.go
@@ -13,7 +13,7 @@ type Output struct {
 
 func (out Vout) NewOutput() (*Output, error) {
 	assetID, err := reverseHexToBytes(out.AssetID)
-	if err != nil {
+	if err != nil || len(assetID) != 32 {
 		return nil, errors.New("Invalid Asset ID!")
 	}
 
-- 
2.43.0


From a32f7922f0f219fca6c4f006bbc4f17c0dd39498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:52 +0000
Subject: [PATCH 079/132] fix: elastos wrote counts above 127 in a foreign
 integer format

---
 elastosTransaction/txSignature.go |  2 +-
 elastosTransaction/txStruct.go    |  4 ++--
 elastosTransaction/txUtils.go     | 18 ++++++++++--------
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/elastosTransaction/txSignature.go b/elastosTransaction/txSignature.go
index 1e7c0fc..89229b1 100644
--- a/elastosTransaction/txSignature.go
+++ b/elastosTransaction/txSignature.go
@@ -32,7 +32,7 @@ func (sp SigPub) ToBytes() ([]byte, error) {
 func (sps Sigpubs) ToBytes() ([]byte, error) {
 	ret := []byte{}
 
-	ret = append(ret, uint64ToUvarint(uint64(len(sps)))...)
+	ret = append(ret, uint64ToVarUint(uint64(len(sps)))...)
 	for _, sp := range sps {
 		data, err := sp.ToBytes()
 		if err != nil {
diff --git a/elastosTransaction/txStruct.go b/elastosTransaction/txStruct.go
index 7d7a287..3ff4a27 100644
--- a/elastosTransaction/txStruct.go
+++ b/elastosTransaction/txStruct.go
@@ -47,13 +47,13 @@ func (tx Transaction) GetEmptyAndHash() ([]byte, []byte) {
 
 	txBytes = append(txBytes, tx.TxType, tx.PayloadVersion, 0x00) // 0x00 for attributes count
 
-	txBytes = append(txBytes, uint64ToUvarint(uint64(len(tx.Inputs)))...) // input count
+	txBytes = append(txBytes, uint64ToVarUint(uint64(len(tx.Inputs)))...) // input count
 
 	for _, input := range tx.Inputs {
 		txBytes = append(txBytes, input.ToBytes()...)
 	}
 
-	txBytes = append(txBytes, uint64ToUvarint(uint64(len(tx.Outputs)))...) // output count
+	txBytes = append(txBytes, uint64ToVarUint(uint64(len(tx.Outputs)))...) // output count
 	for _, output := range tx.Outputs {
 		txBytes = append(txBytes, output.ToBytes()...)
 	}
diff --git a/elastosTransaction/txUtils.go b/elastosTransaction/txUtils.go
index 64f11c0..7943933 100644
--- a/elastosTransaction/txUtils.go
+++ b/elastosTransaction/txUtils.go
@@ -62,15 +62,17 @@ func littleEndianBytesToUint16(data []byte) uint16 {
 	return binary.LittleEndian.Uint16(data)
 }
 
-func uint64ToUvarint(x uint64) []byte {
-	ret := [8]byte{}
-
-	len := binary.PutUvarint(ret[:], x)
-
-	if len == 0 {
-		return nil
+func uint64ToVarUint(x uint64) []byte {
+	if x < 0xfd {
+		return []byte{byte(x)}
+	}
+	if x <= 0xffff {
+		return append([]byte{0xfd}, uint16ToLittleEndianBytes(uint16(x))...)
+	}
+	if x <= 0xffffffff {
+		return append([]byte{0xfe}, uint32ToLittleEndianBytes(uint32(x))...)
 	}
-	return ret[:len]
+	return append([]byte{0xff}, uint64ToLittleEndianBytes(x)...)
 }
 
 func uvarintToUint64(buf []byte) uint64 {
-- 
2.43.0


From 6a62b8339afc3a825521a98d7e52155360d4ec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:52 +0000
Subject: [PATCH 080/132] fix: elastos panicked on malformed public keys and
 completed transactions without any signature

---
 elastosTransaction/transaction.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/elastosTransaction/transaction.go b/elastosTransaction/transaction.go
index f76d156..5fbaae5 100644
--- a/elastosTransaction/transaction.go
+++ b/elastosTransaction/transaction.go
@@ -73,8 +73,16 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPubs []SigPub) (bool,
 
 	hash := owcrypt.Hash(txBytes, 0, owcrypt.HASH_ALG_SHA256)
 
+	if len(sigPubs) == 0 {
+		return false, ""
+	}
+
 	for _, sp := range sigPubs {
-		publicKey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)[1:]
+		publicKey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)
+		if len(publicKey) == 0 || len(sp.Signature) != 64 {
+			return false, ""
+		}
+		publicKey = publicKey[1:]
 		if owcrypt.SUCCESS != owcrypt.Verify(publicKey, nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, ""
 		}
-- 
2.43.0


From c14effb3a960a605667f7f2e12300d22757d7ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:52 +0000
Subject: [PATCH 081/132] fix: mateverse hashed undecodable and long lock
 scripts as something else

---
 mateverseTransaction/transaction.go |  3 +++
 mateverseTransaction/txIn.go        | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/mateverseTransaction/transaction.go b/mateverseTransaction/transaction.go
index 5069d2b..0a59458 100644
--- a/mateverseTransaction/transaction.go
+++ b/mateverseTransaction/transaction.go
@@ -38,6 +38,9 @@ func GetSigHash(emptyTrans string, inputs *[]*TxInput) error {
 		if lockScript == "" || len(lockScript) < 50 {
 			return errors.New("Invalid lock script!")
 		}
+		if scriptBytes, err := hex.DecodeString(lockScript); err != nil || len(scriptBytes) > 0xffff {
+			return errors.New("Invalid lock script!")
+		}
 		input.SetLockScript(lockScript)
 		_, err = hex.DecodeString(input.txID)
 		if err != nil || len(input.txID) != 64 {
diff --git a/mateverseTransaction/txIn.go b/mateverseTransaction/txIn.go
index 7747b42..2a90fca 100644
--- a/mateverseTransaction/txIn.go
+++ b/mateverseTransaction/txIn.go
@@ -59,6 +59,9 @@ func decodeEmptyTx(tx []byte) ([]*TxInput, int,  error) {
 	}
 
 	var inputCount int
+	if tx[index] > 0xfd {
+		return nil, 0, errors.New("Invalid tx data!")
+	}
 	if tx[index] != 0xfd {
 		inputCount = int(tx[index])
 		if inputCount == 0 {
@@ -154,7 +157,12 @@ func getHashCalcBytes(inputs []*TxInput, index int) []byte {
 		tx = append(tx, uint32ToLittleEndianBytes(input.vout)...)
 		if i == index {
 			lockScript, _ := hex.DecodeString(input.lockScript)
-			tx = append(tx, byte(len(lockScript)))
+			if len(lockScript) < 0xfd {
+				tx = append(tx, byte(len(lockScript)))
+			} else {
+				tx = append(tx, 0xfd)
+				tx = append(tx, uint16ToLittleEndianBytes(uint16(len(lockScript)))...)
+			}
 			tx = append(tx, lockScript...)
 		} else {
 			tx = append(tx, 0x00)
-- 
2.43.0


From 6f5e5b73b968624366711fc051df4ac2c7bddc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:52 +0000
Subject: [PATCH 082/132] fix: mateverse trusted the digests, inputs and keys
 of its caller when combining

---
 mateverseTransaction/transaction.go | 25 +++++++++++++++++++++++--
 mateverseTransaction/txIn.go        | 29 +++++++++++++++++++++++++++++
 mateverseTransaction/txSigPub.go    | 10 +++++++---
 3 files changed, 59 insertions(+), 5 deletions(-)

diff --git a/mateverseTransaction/transaction.go b/mateverseTransaction/transaction.go
index 0a59458..3e3a043 100644
--- a/mateverseTransaction/transaction.go
+++ b/mateverseTransaction/transaction.go
@@ -25,10 +25,13 @@ func GetSigHash(emptyTrans string, inputs *[]*TxInput) error {
 	if err != nil {
 		return errors.New("Invalid empty raw transaction!")
 	}
-	_, inputsEnd, err := decodeEmptyTx(trans)
+	emptyInputs, inputsEnd, err := decodeEmptyTx(trans)
 	if err != nil {
 		return err
 	}
+	if inputs == nil || !sameInputs(*inputs, emptyInputs) {
+		return errors.New("Inputs do not match the transaction!")
+	}
 
 	for i, input := range *inputs {
 		if input.lockScript == "" {
@@ -76,7 +79,25 @@ func SignTransaction(hash string, prikey []byte) (string, error) {
 
 func VerifyAndCombineTransaction(emptyTrans string, inputs []*TxInput) (bool, string) {
 
-	for _, input := range inputs {
+	trans, err := hex.DecodeString(emptyTrans)
+	if err != nil {
+		return false, ""
+	}
+	emptyInputs, _, err := decodeEmptyTx(trans)
+	if err != nil || !sameInputs(inputs, emptyInputs) {
+		return false, ""
+	}
+	for i, input := range inputs {
+		emptyInputs[i].SetLockScript(input.lockScript)
+	}
+	if GetSigHash(emptyTrans, &emptyInputs) != nil {
+		return false, ""
+	}
+
+	for i, input := range inputs {
+		if input.hash != emptyInputs[i].hash || !ownsLockScript(input.pubkey, emptyInputs[i].lockScript) {
+			return false, ""
+		}
 		if !verifyTransactionHash(input.pubkey, input.hash, input.signature) {
 			return false, ""
 		}
diff --git a/mateverseTransaction/txIn.go b/mateverseTransaction/txIn.go
index 2a90fca..a4401f0 100644
--- a/mateverseTransaction/txIn.go
+++ b/mateverseTransaction/txIn.go
@@ -4,6 +4,8 @@ import (
 	"encoding/hex"
 	"errors"
 	"strings"
+
+	"github.com/blocktree/go-owcrypt"
 )
 
 type TxInput struct {
@@ -114,6 +116,33 @@ func decodeEmptyTx(tx []byte) ([]*TxInput, int,  error) {
 	return inputs, index, nil
 }
 
+// sameInputs tells whether both lists name the same previous outputs in the same order
+func sameInputs(a, b []*TxInput) bool {
+	if len(a) != len(b) {
+		return false
+	}
+	for i := range a {
+		if a[i] == nil || b[i] == nil || !strings.EqualFold(a[i].txID, b[i].txID) || a[i].vout != b[i].vout || a[i].sequence != b[i].sequence {
+			return false
+		}
+	}
+	return true
+}
+
+// ownsLockScript tells whether the public key is the one a lock script that ends
+// in pay-to-pubkey-hash asks for. Other scripts name no key.
+func ownsLockScript(pubkey, lockScript string) bool {
+	lockScript = strings.ToLower(lockScript)
+	if len(lockScript) < 50 || !strings.HasSuffix(lockScript, "88ac") || lockScript[len(lockScript)-50:len(lockScript)-44] != "76a914" {
+		return true
+	}
+	pub, err := hex.DecodeString(pubkey)
+	if err != nil {
+		return false
+	}
+	return lockScript[len(lockScript)-44:len(lockScript)-4] == hex.EncodeToString(owcrypt.Hash(pub, 0, owcrypt.HASH_ALG_HASH160))
+}
+
 func getHashFromLockScript(script string) string {
 	script = strings.ReplaceAll(script, " ", "")
 	script = strings.ReplaceAll(script, "duphash160[", "76a914")
diff --git a/mateverseTransaction/txSigPub.go b/mateverseTransaction/txSigPub.go
index cee0d9e..8e0311a 100644
--- a/mateverseTransaction/txSigPub.go
+++ b/mateverseTransaction/txSigPub.go
@@ -17,7 +17,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		r = append([]byte{0x00}, r...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if r[0] == 0 && r[1]&0x80 != 0x80 {
+			if len(r) > 1 && r[0] == 0 && r[1]&0x80 != 0x80 {
 				r = r[1:]
 			} else {
 				break
@@ -28,7 +28,7 @@ func (sp SignaturePubkey) encodeSignatureToScript(sigType byte) []byte {
 		s = append([]byte{0}, s...)
 	} else {
 		for i := 0; i < 32; i++ {
-			if s[0] == 0 && s[1]&0x80 != 0x80 {
+			if len(s) > 1 && s[0] == 0 && s[1]&0x80 != 0x80 {
 				s = s[1:]
 			} else {
 				break
@@ -72,7 +72,11 @@ func verifyTransactionHash(pubkey, hash, signature string) bool {
 		return false
 	}
 
-	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubBytes) == 0 {
+		return false
+	}
+	pubBytes = pubBytes[1:]
 	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes, nil, hashBytes, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
 		return false
 	}
-- 
2.43.0


From ce72d269b90522f3c6534580b0565dba31d622ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:52 +0000
Subject: [PATCH 083/132] fix: fiii truncated output indexes that do not fit
 its format

---
 fiiiTransaction/txInput.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fiiiTransaction/txInput.go b/fiiiTransaction/txInput.go
index d6fffe3..f83f6e8 100644
--- a/fiiiTransaction/txInput.go
+++ b/fiiiTransaction/txInput.go
@@ -26,6 +26,10 @@ func (in Vin) NewInputMsg() (*InputMsg, error) {
 		return nil, err
 	}
 
+	if in.Vout < 0 || int64(in.Vout) > 0x7fffffff {
+		return nil, errors.New("Invalid UTXO!")
+	}
+
 	ret.OutputTransactionHash = in.TxID
 	ret.OutputIndex = in.Vout
 
-- 
2.43.0


From 43665d7bc21e3d81600aef935a3b8f60b9bccc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:52 +0000
Subject: [PATCH 084/132] fix: fiii combined transactions whose input and
 output counts are wrong

---
 fiiiTransaction/transaction.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fiiiTransaction/transaction.go b/fiiiTransaction/transaction.go
index 50caa9f..4dd8967 100644
--- a/fiiiTransaction/transaction.go
+++ b/fiiiTransaction/transaction.go
@@ -100,7 +100,14 @@ func VerifyAndCombineTransaction(emptyTrans string, sigPub []SigPub) (bool, stri
 		return false, "", errors.New("Signatures are not enough to unlock transaction!")
 	}
 
+	if txMsg.InputCount != len(txMsg.Inputs) || txMsg.OutputCount != len(txMsg.Outputs) {
+		return false, "", errors.New("Invalid empty transaction data!")
+	}
+
 	for i := 0; i < len(sigPub); i++ {
+		if len(sigPub[i].Signature) != 64 || len(sigPub[i].Pubkey) != 32 {
+			return false, "", errors.New("Signature verify failed!")
+		}
 		msg, err := txMsg.Inputs[i].genMessageBytes()
 		if err != nil {
 			return false, "", err
-- 
2.43.0


From 66fb2a600839b1767f61564c250bf87a7dc3c9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:25 +0000
Subject: [PATCH 085/132] fix: bytom panicked on short recipient addresses

---
 bytomTransaction/transaction.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index c1d3371..b74545e 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -3,6 +3,7 @@ package bytomTransaction
 import (
 	"encoding/hex"
 	"errors"
+	"strings"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
 )
@@ -24,11 +25,11 @@ func CreateEmptyRawTransaction(vins []Vin, vouts []Vout, timeRange uint64, isTes
 
 	for _, addr := range vouts {
 		if isTestNet {
-			if addr.Address[:2] != Bech32HRPSegwitTestNet {
+			if !strings.HasPrefix(addr.Address, Bech32HRPSegwitTestNet+"1") {
 				return "", errors.New("Invalid address to send!")
 			}
 		} else {
-			if addr.Address[:2] != Bech32HRPSegwitMainNet {
+			if !strings.HasPrefix(addr.Address, Bech32HRPSegwitMainNet+"1") {
 				return "", errors.New("Invalid address to send!")
 			}
 		}
-- 
2.43.0


From 6cbcb45a8d857106c9967b4ad90ce3ebb6bdff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:25 +0000
Subject: [PATCH 086/132] fix: bytom panicked on amounts from 2^56 and
 truncated counts and integers it cannot encode

---
 bytomTransaction/transaction.go | 15 +++++++++++++++
 bytomTransaction/txUtil.go      |  2 +-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index b74545e..20bba8d 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -3,6 +3,7 @@ package bytomTransaction
 import (
 	"encoding/hex"
 	"errors"
+	"math"
 	"strings"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
@@ -35,6 +36,20 @@ func CreateEmptyRawTransaction(vins []Vin, vouts []Vout, timeRange uint64, isTes
 		}
 	}
 
+	if timeRange > math.MaxInt64 || len(vins) > 0x7f || len(vouts) > 0x7f {
+		return "", errors.New("Transaction can not be represented!")
+	}
+	for _, in := range vins {
+		if in.Amount > math.MaxInt64 || in.SourcePosition > math.MaxInt64 {
+			return "", errors.New("Invalid input amount or position!")
+		}
+	}
+	for _, out := range vouts {
+		if out.Amount > math.MaxInt64 {
+			return "", errors.New("Invalid amount to send!")
+		}
+	}
+
 	emptyTrans, err := newEmptyTransaction(vins, vouts, timeRange)
 	if err != nil {
 		return "", err
diff --git a/bytomTransaction/txUtil.go b/bytomTransaction/txUtil.go
index f67ebe3..da4160b 100644
--- a/bytomTransaction/txUtil.go
+++ b/bytomTransaction/txUtil.go
@@ -5,7 +5,7 @@ import (
 )
 
 func uint64ToUvarint(x uint64) []byte {
-	ret := [8]byte{}
+	ret := [binary.MaxVarintLen64]byte{}
 
 	len := binary.PutUvarint(ret[:], x)
 
-- 
2.43.0


From 7cc81190e3218a81ddaa4d1bb8cc4494f36a5a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:25 +0000
Subject: [PATCH 087/132] fix: bytom panicked on truncated integers and misread
 source positions above 127

---
 bytomTransaction/txIn.go     | 29 ++++++++++-----------------
 bytomTransaction/txOut.go    | 19 +++++-------------
 bytomTransaction/txStruct.go | 38 ++++++++++--------------------------
 bytomTransaction/txUtil.go   | 13 ++++++++++++
 4 files changed, 38 insertions(+), 61 deletions(-)

diff --git a/bytomTransaction/txIn.go b/bytomTransaction/txIn.go
index 89eab81..5c9803e 100644
--- a/bytomTransaction/txIn.go
+++ b/bytomTransaction/txIn.go
@@ -184,28 +184,19 @@ func decodeCommitment(script []byte) ([]byte, []byte, []byte, []byte, []byte, er
 	assetID := script[index : index+32]
 	index += 32
 
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
-		}
-
-		if script[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	end, err := uvarintEnd(script, index)
+	if err != nil {
+		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
 	}
-	amount := script[index : index+offset]
-	index += offset
+	amount := script[index:end]
+	index = end
 
-	if index+1 > limit {
+	end, err = uvarintEnd(script, index)
+	if err != nil {
 		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
 	}
-
-	sourcePos := script[index : index+1]
-	index++
+	sourcePos := script[index:end]
+	index = end
 
 	if index+1 > limit {
 		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
@@ -219,7 +210,7 @@ func decodeCommitment(script []byte) ([]byte, []byte, []byte, []byte, []byte, er
 		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
 	}
 	controlLen := int(script[index])
-	if controlLen == 0 {
+	if controlLen != 22 && controlLen != 34 {
 		return nil, nil, nil, nil, nil, errors.New("Invalid commitment data!")
 	}
 
diff --git a/bytomTransaction/txOut.go b/bytomTransaction/txOut.go
index 56b261c..c5b750f 100644
--- a/bytomTransaction/txOut.go
+++ b/bytomTransaction/txOut.go
@@ -101,21 +101,12 @@ func decodeOutputScript(script []byte) ([]byte, []byte, []byte, error) {
 	assetID := script[index : index+32]
 	index += 32
 
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, nil, nil, errors.New("Invalid output script data!")
-		}
-		if script[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	end, err := uvarintEnd(script, index)
+	if err != nil {
+		return nil, nil, nil, errors.New("Invalid output script data!")
 	}
-
-	amount := script[index : index+offset]
-	index += offset
+	amount := script[index:end]
+	index = end
 
 	if index+1 > limit {
 		return nil, nil, nil, errors.New("Invalid output script data!")
diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index fe41dd5..b229510 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -111,38 +111,20 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 	index++
 
 	// get transaction version
-	offset := 1
-	for {
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		if txBytes[index+offset-1] < 0x80 {
-			break
-		} else {
-			index++
-			continue
-		}
+	end, err := uvarintEnd(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	rawTx.Version = txBytes[index : index+offset]
-	index += offset
+	rawTx.Version = txBytes[index:end]
+	index = end
 
 	// get range time
-	offset = 1
-	for {
-		if index+1 > limit {
-			return nil, errors.New("Invalid transaction data!")
-		}
-		if txBytes[index+offset-1] < 0x80 {
-			break
-		} else {
-			offset++
-			continue
-		}
+	end, err = uvarintEnd(txBytes, index)
+	if err != nil {
+		return nil, err
 	}
-
-	rawTx.TimeRange = txBytes[index : index+offset]
-	index += offset
+	rawTx.TimeRange = txBytes[index:end]
+	index = end
 
 	//get count of inputs
 	if index+1 > limit {
diff --git a/bytomTransaction/txUtil.go b/bytomTransaction/txUtil.go
index da4160b..3ecfb34 100644
--- a/bytomTransaction/txUtil.go
+++ b/bytomTransaction/txUtil.go
@@ -2,6 +2,7 @@ package bytomTransaction
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
 func uint64ToUvarint(x uint64) []byte {
@@ -15,6 +16,18 @@ func uint64ToUvarint(x uint64) []byte {
 	return ret[:len]
 }
 
+// uvarintEnd returns the index behind the variable length integer that starts at index
+func uvarintEnd(data []byte, index int) (int, error) {
+	if index < 0 || index >= len(data) {
+		return 0, errors.New("Invalid transaction data!")
+	}
+	_, length := binary.Uvarint(data[index:])
+	if length <= 0 {
+		return 0, errors.New("Invalid transaction data!")
+	}
+	return index + length, nil
+}
+
 func uvarintToUint64(buf []byte) uint64 {
 	if buf == nil || len(buf) == 0x00 {
 		return 0
-- 
2.43.0


From bf3df2d7c438a922b7565bf70ebf20ebb9dfd569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:25 +0000
Subject: [PATCH 088/132] fix: bytom digests were wrong for outputs at a source
 position other than 0

---
 bytomTransaction/txStruct.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index b229510..5c75827 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -363,7 +363,8 @@ func (t Transaction) getMuxID() ([]byte, error) {
 		msgBytes = append(msgBytes, spendID[i]...)
 		msgBytes = append(msgBytes, t.Inputs[i].AssetID...)
 		msgBytes = append(msgBytes, uint64ToLittleEndianBytes(t.Inputs[i].GetAmount())...)
-		msgBytes = append(msgBytes, uint64ToLittleEndianBytes(t.Inputs[i].GetSourcePosition())...)
+		// a spend has a single result, so its position in the mux is always 0
+		msgBytes = append(msgBytes, uint64ToLittleEndianBytes(0)...)
 	}
 
 	msgBytes = append(msgBytes, uint64ToLittleEndianBytes(DefaultVMVersion)...)
-- 
2.43.0


From 6861020572ed93a760f623f092d06f8d3d6899ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:14 +0000
Subject: [PATCH 089/132] fix: bytom multisignature spends were only encoded
 correctly for 2-of-2 and 2-of-3

---
 bytomTransaction/txHash.go     | 18 +++++++---
 bytomTransaction/txIn.go       |  1 +
 bytomTransaction/txMultiSig.go | 30 ++++++++++------
 bytomTransaction/txStruct.go   | 63 ++++++++++------------------------
 4 files changed, 52 insertions(+), 60 deletions(-)

diff --git a/bytomTransaction/txHash.go b/bytomTransaction/txHash.go
index 477f850..09c8530 100644
--- a/bytomTransaction/txHash.go
+++ b/bytomTransaction/txHash.go
@@ -49,16 +49,25 @@ func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 		return nil, nil, errors.New("Not a multisig txhash!")
 	}
 
+	if len(th.Multi) > 16 || int(th.NRequired) > len(th.Multi) {
+		return nil, nil, errors.New("Invalid pubkey count for create multisig!")
+	}
+
 	signScript := []byte{}
 
 	signScript = append(signScript, Op_TxSignHash)
 
 	for _, key := range th.Multi {
-		if key.SigPub.Pubkey == nil || len(key.SigPub.Pubkey) != 0x20 {
+		pubkey := key.SigPub.Pubkey
+		if pubkey == nil {
+			// this key does not sign
+			pubkey, _ = hex.DecodeString(key.Pubkey)
+		}
+		if len(pubkey) != 0x20 {
 			return nil, nil, errors.New("Invalid pubkey data for create multisig!")
 		}
 		signScript = append(signScript, 0x20)
-		signScript = append(signScript, key.SigPub.Pubkey...)
+		signScript = append(signScript, pubkey...)
 	}
 
 	signScript = append(signScript, Op_1-1+th.NRequired)
@@ -71,7 +80,7 @@ func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 
 	sigBytes := []byte{}
 
-	sigBytes = append(sigBytes, 0x01, 0x03)
+	sigBytes = append(sigBytes, th.NRequired+1)
 
 	count := 0
 	for _, sp := range th.Multi {
@@ -95,9 +104,8 @@ func (th TxHash) getMultiSigBytes() ([]byte, []byte, error) {
 		return nil, nil, errors.New("Not competely signed!")
 	}
 
-	sigBytes = append(sigBytes, byte(len(signScript)))
+	sigBytes = append(sigBytes, uint64ToUvarint(uint64(len(signScript)))...)
 	sigBytes = append(sigBytes, signScript...)
 
-	sigBytes = append([]byte{byte(len(sigBytes) - 1)}, sigBytes...)
 	return sigBytes, scriptHash, nil
 }
diff --git a/bytomTransaction/txIn.go b/bytomTransaction/txIn.go
index 5c9803e..7c098d9 100644
--- a/bytomTransaction/txIn.go
+++ b/bytomTransaction/txIn.go
@@ -134,6 +134,7 @@ func (in TxIn) toBytes() ([]byte, error) {
 		ret = append(ret, 0x01, 0x00)
 	} else {
 		if in.SigPub == nil {
+			ret = append(ret, uint64ToUvarint(uint64(len(in.MultiSig)))...)
 			ret = append(ret, in.MultiSig...)
 		} else {
 			spBytes, err := in.SigPub.toBytes()
diff --git a/bytomTransaction/txMultiSig.go b/bytomTransaction/txMultiSig.go
index c7bf728..9d92384 100644
--- a/bytomTransaction/txMultiSig.go
+++ b/bytomTransaction/txMultiSig.go
@@ -20,6 +20,10 @@ func CreateMultiSig(required byte, pubkeys [][]byte, isTestNet bool) (string, st
 		return "", "", errors.New("The required number is bigger than the count of pubkeys!")
 	}
 
+	if len(pubkeys) > 16 {
+		return "", "", errors.New("Too many pubkeys for a multisig!")
+	}
+
 	signScript := []byte{}
 
 	signScript = append(signScript, Op_TxSignHash)
@@ -88,7 +92,7 @@ func getMultiSigDetail(signScript []byte) ([]MultiTx, byte, error) {
 
 	required := signScript[index] - (Op_1 - 1)
 
-	if required <= 0 {
+	if required <= 0 || int(required) > len(multi) || len(multi) > 16 {
 		return nil, 0, errors.New("Invalid required number for a multi sigScript!")
 	}
 	index++
@@ -122,22 +126,22 @@ func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
 	limit := len(sp)
 	index := 0
 
-	if index+2 > limit {
-		return nil, nil, errors.New("Invalid signature and public key data!")
-	}
-
-	if sp[index] != 0x01 || sp[index+1] != 0x03 {
+	if index+1 > limit {
 		return nil, nil, errors.New("Invalid signature and public key data!")
 	}
 
-	index += 2
+	argCount := int(sp[index])
+	index++
 
 	for {
 		if index+1 > limit {
 			return nil, nil, errors.New("Invalid signature and public key data!")
 		}
 
-		if sp[index] == 0x40 {
+		if len(sigs) < argCount-1 {
+			if sp[index] != 0x40 {
+				return nil, nil, errors.New("Invalid signature and public key data!")
+			}
 			index++
 			if index+0x40 > limit {
 				return nil, nil, errors.New("Invalid signature and public key data!")
@@ -153,11 +157,15 @@ func getMultiSigPubs(sp []byte) ([][]byte, [][]byte, error) {
 		return nil, nil, errors.New("Invalid signature and public key data!")
 	}
 
-	commitLen := int(sp[index])
+	end, err := uvarintEnd(sp, index)
+	if err != nil {
+		return nil, nil, err
+	}
+	commitLen := uvarintToUint64(sp[index:end])
 
-	index++
+	index = end
 
-	if index+commitLen != limit {
+	if commitLen != uint64(limit-index) {
 		return nil, nil, errors.New("Invalid signature and public key data!")
 	}
 	if index+1 > limit {
diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index 5c75827..4c2ea2c 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -176,55 +176,30 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		if index+1 > limit {
 			return nil, errors.New("Invalid transaction data!")
 		}
-		if txBytes[index] == 0x01 {
-			if index+2 > limit {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			if txBytes[index+1] != 0x00 {
+		end, err = uvarintEnd(txBytes, index)
+		if err != nil {
+			return nil, err
+		}
+		witnessLen := uvarintToUint64(txBytes[index:end])
+		index = end
+		if witnessLen == 0 || witnessLen > uint64(limit-index) {
+			return nil, errors.New("Invalid transaction data!")
+		}
+		witness := txBytes[index : index+int(witnessLen)]
+		index += int(witnessLen)
+
+		if len(witness) == 1 {
+			if witness[0] != 0x00 {
 				return nil, errors.New("Invalid transaction data!")
-			} else {
-				in.SigPub = nil
-				index += 2
 			}
+			in.SigPub = nil
+		} else if len(in.ControlProgram) == 34 {
+			in.MultiSig = witness
 		} else {
-			spScriptLen := int(txBytes[index])
-			if spScriptLen == 0 {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			index++
-			if index+2 > limit {
-				return nil, errors.New("Invalid transaction data!")
-			}
-			if txBytes[index] == 0x02 && txBytes[index+1] == 0x40 {
-				index += 2
-				if index+64 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				sig := txBytes[index : index+64]
-				index += 64
-				if index+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				if txBytes[index] != 32 {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				index++
-				if index+32 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				pub := txBytes[index : index+32]
-				index += 32
-				in.SigPub = &SigPub{sig, pub}
-			} else if txBytes[index] == 0x01 && txBytes[index+1] == 0x03 {
-
-				if index+spScriptLen+1 > limit {
-					return nil, errors.New("Invalid transaction data!")
-				}
-				in.MultiSig = txBytes[index : index+spScriptLen+1]
-				index += spScriptLen + 1
-			} else {
+			if len(witness) != 99 || witness[0] != 0x02 || witness[1] != 0x40 || witness[66] != 0x20 {
 				return nil, errors.New("Invalid transaction data!")
 			}
+			in.SigPub = &SigPub{witness[2:66], witness[67:]}
 		}
 		rawTx.Inputs = append(rawTx.Inputs, in)
 	}
-- 
2.43.0


From b778f80ce4a8ccc612114611d16f1d707bf21e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:14 +0000
Subject: [PATCH 090/132] fix: bytom verification panicked on unsigned inputs
 and accepted foreign or repeated multisignature keys

---
 bytomTransaction/transaction.go | 34 ++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index 20bba8d..aedcd64 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -1,6 +1,7 @@
 package bytomTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"math"
@@ -140,16 +141,28 @@ func InsertSignatureIntoEmptyTransaction(txHex string, txHashes []TxHash) (strin
 		return "", errors.New("Invalid empty transaction,no output found!")
 	}
 
+	if len(txHashes) != len(emptyTrans.Inputs) {
+		return "", errors.New("Signatures and inputs do not match!")
+	}
+
 	for i := 0; i < len(txHashes); i++ {
+		if txHashes[i].IsMultiSig() != (len(emptyTrans.Inputs[i].ControlProgram) == 34) {
+			return "", errors.New("Signatures and inputs do not match!")
+		}
 		if txHashes[i].IsMultiSig() {
 			multiSigData, controlProgram, err := txHashes[i].getMultiSigBytes()
 			if err != nil {
 				return "", err
 			}
-			emptyTrans.Inputs[i].ControlProgram = controlProgram
+			if !bytes.Equal(emptyTrans.Inputs[i].ControlProgram, controlProgram) {
+				return "", errors.New("Multisig script does not belong to the input!")
+			}
 			emptyTrans.Inputs[i].MultiSig = multiSigData
 			emptyTrans.Inputs[i].SigPub = nil
 		} else {
+			if txHashes[i].Normal == nil {
+				return "", errors.New("No signature data found!")
+			}
 			emptyTrans.Inputs[i].SigPub = &txHashes[i].Normal.SigPub
 			emptyTrans.Inputs[i].MultiSig = nil
 		}
@@ -198,19 +211,26 @@ func VerifyRawTransaction(txHex string) bool {
 			if err != nil {
 				return false
 			}
+			scriptLen := 3 + 33*len(pubs) + 1
+			script := signedTrans.Inputs[i].MultiSig[len(signedTrans.Inputs[i].MultiSig)-scriptLen:]
+			if !bytes.Equal(owcrypt.Hash(script, 0, owcrypt.HASH_ALG_SHA3_256), signedTrans.Inputs[i].ControlProgram[2:]) {
+				return false
+			}
+			// every signature belongs to another key, in the order of the keys
 			count := 0
-			for j := 0; j < len(sigs); j++ {
-				for k := j; k < len(pubs); k++ {
-					if owcrypt.SUCCESS == owcrypt.Verify(pubs[k], nil, txHashes[i], sigs[j], owcrypt.ECC_CURVE_ED25519_NORMAL) {
-						count++
-					}
+			for k := 0; k < len(pubs) && count < len(sigs); k++ {
+				if owcrypt.SUCCESS == owcrypt.Verify(pubs[k], nil, txHashes[i], sigs[count], owcrypt.ECC_CURVE_ED25519_NORMAL) {
+					count++
 				}
 			}
 
-			if count != len(sigs) {
+			if count == 0 || count != len(sigs) {
 				return false
 			}
 		} else {
+			if signedTrans.Inputs[i].SigPub == nil {
+				return false
+			}
 			if owcrypt.SUCCESS != owcrypt.Verify(signedTrans.Inputs[i].SigPub.Pubkey, nil, txHashes[i], signedTrans.Inputs[i].SigPub.Signature, owcrypt.ECC_CURVE_ED25519_NORMAL) {
 				return false
 			}
-- 
2.43.0


From 1ea76d138b19eff5bfb446f30a28f1592254431e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:25 +0000
Subject: [PATCH 091/132] fix: bytom verification accepted signatures of keys
 that do not own the inputs

---
 bytomTransaction/transaction.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bytomTransaction/transaction.go b/bytomTransaction/transaction.go
index aedcd64..199fae8 100644
--- a/bytomTransaction/transaction.go
+++ b/bytomTransaction/transaction.go
@@ -231,6 +231,11 @@ func VerifyRawTransaction(txHex string) bool {
 			if signedTrans.Inputs[i].SigPub == nil {
 				return false
 			}
+			program := signedTrans.Inputs[i].ControlProgram[2:]
+			pubkey := signedTrans.Inputs[i].SigPub.Pubkey
+			if !bytes.Equal(program, owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_HASH160)) && !bytes.Equal(program, owcrypt.Hash(pubkey, 0, owcrypt.HASH_ALG_RIPEMD160)) {
+				return false
+			}
 			if owcrypt.SUCCESS != owcrypt.Verify(signedTrans.Inputs[i].SigPub.Pubkey, nil, txHashes[i], signedTrans.Inputs[i].SigPub.Signature, owcrypt.ECC_CURVE_ED25519_NORMAL) {
 				return false
 			}
-- 
2.43.0


From 66e4b17d54df883db1b2af199423a5d7d3b11b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:55 +0000
Subject: [PATCH 092/132] fix: bytomTransaction verified transactions whose
 version differs from the one the digest commits to

---
 bytomTransaction/txStruct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bytomTransaction/txStruct.go b/bytomTransaction/txStruct.go
index 4c2ea2c..5ffb3f9 100644
--- a/bytomTransaction/txStruct.go
+++ b/bytomTransaction/txStruct.go
@@ -116,6 +116,9 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		return nil, err
 	}
 	rawTx.Version = txBytes[index:end]
+	if uvarintToUint64(rawTx.Version) != DefaultTransactionVersion {
+		return nil, errors.New("Invalid transaction version!")
+	}
 	index = end
 
 	// get range time
-- 
2.43.0


From 1ef0f3bc4024b08de115315030b61a566cea5ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:55 +0000
Subject: [PATCH 093/132] fix: vollarTransaction combined transactions with an
 altered version or flag, which the digest does not commit to

---
 vollarTransaction/txStruct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vollarTransaction/txStruct.go b/vollarTransaction/txStruct.go
index bced144..c8c56b6 100644
--- a/vollarTransaction/txStruct.go
+++ b/vollarTransaction/txStruct.go
@@ -1,6 +1,7 @@
 package vollarTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"strings"
@@ -153,6 +154,9 @@ func DecodeTxStructRaw(trans string) (*TxStruct, []string, error) {
 		return nil, nil, errors.New("invalid transaction data!")
 	}
 	txStruct.Flag = txBytes[index]
+	if !bytes.Equal(txStruct.Version, DefaultTxVersion) || txStruct.Flag != DefaultTxFlag {
+		return nil, nil, errors.New("unsupported transaction version!")
+	}
 	index++
 
 	if index+1 > limit {
-- 
2.43.0


From d1ff622219c9214404d2d62d14fb0230b7ffc489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:05 +0000
Subject: [PATCH 094/132] fix: elastosTransaction crashed on a compressed key
 that is no point of the curve

---
 elastosTransaction/transaction.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elastosTransaction/transaction.go b/elastosTransaction/transaction.go
index 5fbaae5..1f35852 100644
--- a/elastosTransaction/transaction.go
+++ b/elastosTransaction/transaction.go
@@ -1,6 +1,7 @@
 package elastosTransaction
 
 import (
+	"crypto/elliptic"
 	"encoding/hex"
 	"errors"
 
@@ -82,6 +83,9 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPubs []SigPub) (bool,
 		if len(publicKey) == 0 || len(sp.Signature) != 64 {
 			return false, ""
 		}
+		if x, _ := elliptic.Unmarshal(elliptic.P256(), publicKey); x == nil {
+			return false, ""
+		}
 		publicKey = publicKey[1:]
 		if owcrypt.SUCCESS != owcrypt.Verify(publicKey, nil, hash, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, ""
-- 
2.43.0


From 6b13915436bbed982d2c7d576f7bca5e8ada80c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:18 +0000
Subject: [PATCH 095/132] fix: ripple, cosmos, evaio, binancechain and ontology
 shortened small low-S values

---
 binancechainTransaction/utils.go | 2 +-
 cosmosTransaction/transaction.go | 2 +-
 evaioTransaction/transaction.go  | 2 +-
 ontologyTransaction/txSigPub.go  | 2 +-
 rippleTransaction/txUtils.go     | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/binancechainTransaction/utils.go b/binancechainTransaction/utils.go
index 2bf9143..393ed62 100644
--- a/binancechainTransaction/utils.go
+++ b/binancechainTransaction/utils.go
@@ -21,7 +21,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/cosmosTransaction/transaction.go b/cosmosTransaction/transaction.go
index 3393e7c..e320dfb 100644
--- a/cosmosTransaction/transaction.go
+++ b/cosmosTransaction/transaction.go
@@ -37,7 +37,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/evaioTransaction/transaction.go b/evaioTransaction/transaction.go
index 381e17d..073f867 100644
--- a/evaioTransaction/transaction.go
+++ b/evaioTransaction/transaction.go
@@ -37,7 +37,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/ontologyTransaction/txSigPub.go b/ontologyTransaction/txSigPub.go
index 71ac866..4d9a442 100644
--- a/ontologyTransaction/txSigPub.go
+++ b/ontologyTransaction/txSigPub.go
@@ -22,7 +22,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
diff --git a/rippleTransaction/txUtils.go b/rippleTransaction/txUtils.go
index 67d3f05..d82c267 100644
--- a/rippleTransaction/txUtils.go
+++ b/rippleTransaction/txUtils.go
@@ -104,7 +104,7 @@ func serilizeS(sig []byte) []byte {
 
 		s = numS.Bytes()
 		if len(s) < 32 {
-			for i := 0; i < 32-len(s); i++ {
+			for len(s) < 32 {
 				s = append([]byte{0x00}, s...)
 			}
 		}
-- 
2.43.0


From 42a23bb40a9305e258b43c912a5dc1cc49cacee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:18 +0000
Subject: [PATCH 096/132] fix: rippleTransaction wrote memos of more than 192
 bytes with a wrong length prefix

---
 rippleTransaction/txProfile.go |  3 +++
 rippleTransaction/txStruct.go  |  5 +++++
 rippleTransaction/txUtils.go   | 12 +++++++++++-
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/rippleTransaction/txProfile.go b/rippleTransaction/txProfile.go
index 5d9bdf6..1d2a6dc 100644
--- a/rippleTransaction/txProfile.go
+++ b/rippleTransaction/txProfile.go
@@ -7,6 +7,9 @@ const (
 	TxCanonicalSignature uint32 = 0x80000000
 )
 
+// the longest field a length prefix can announce
+const maxMemoLength = 918744
+
 const (
 	ST_UINT16  uint8 = 1
 	ST_UINT32  uint8 = 2
diff --git a/rippleTransaction/txStruct.go b/rippleTransaction/txStruct.go
index 37190d4..7d8dc6e 100644
--- a/rippleTransaction/txStruct.go
+++ b/rippleTransaction/txStruct.go
@@ -172,6 +172,11 @@ func NewTxStruct(from, pubkey string, sequence uint32, to string, amount, fee ui
 		return nil, err
 	}
 
+	for _, memo := range []string{memoType, memoData, memoFormat} {
+		if len(memo) > maxMemoLength {
+			return nil, errors.New("Memo is too long!")
+		}
+	}
 	txStruct.Memos = getMemosBytes(memoType, memoData, memoFormat)
 
 	return &txStruct, nil
diff --git a/rippleTransaction/txUtils.go b/rippleTransaction/txUtils.go
index d82c267..f7424f3 100644
--- a/rippleTransaction/txUtils.go
+++ b/rippleTransaction/txUtils.go
@@ -114,5 +114,15 @@ func serilizeS(sig []byte) []byte {
 }
 
 func memoToBytes(memo string) []byte {
-	return append([]byte{byte(len(memo))}, []byte(memo)...)
+	var head []byte
+	if n := len(memo); n <= 192 {
+		head = []byte{byte(n)}
+	} else if n <= 12480 {
+		n -= 193
+		head = []byte{byte(193 + n>>8), byte(n)}
+	} else {
+		n -= 12481
+		head = []byte{byte(241 + n>>16), byte(n >> 8), byte(n)}
+	}
+	return append(head, []byte(memo)...)
 }
-- 
2.43.0


From ca48eb001793aaedf6854e6c0a349540c28930a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:18 +0000
Subject: [PATCH 097/132] fix: rippleTransaction cut amounts, fees and
 destination tags that do not fit its fields

---
 rippleTransaction/txStruct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rippleTransaction/txStruct.go b/rippleTransaction/txStruct.go
index 7d8dc6e..3335992 100644
--- a/rippleTransaction/txStruct.go
+++ b/rippleTransaction/txStruct.go
@@ -65,6 +65,9 @@ func getAmountBytes(amount uint64) ([]byte, error) {
 	if amount == 0 {
 		return nil, errors.New("Amount cannot be zero!")
 	}
+	if amount >= 1<<62 {
+		return nil, errors.New("Amount is too large!")
+	}
 	enc := getEncBytes(encodings["Amount"])
 	amountValue := newValue(true, false, amount, 0)
 	return append(enc, amountValue.Bytes()...), nil
@@ -74,6 +77,9 @@ func getFeeBytes(fee uint64) ([]byte, error) {
 	if fee == 0 {
 		return nil, errors.New("Fee cannot be zero!")
 	}
+	if fee >= 1<<62 {
+		return nil, errors.New("Fee is too large!")
+	}
 	enc := getEncBytes(encodings["Fee"])
 	feeValue := newValue(true, false, fee, 0)
 	return append(enc, feeValue.Bytes()...), nil
@@ -143,6 +149,9 @@ func NewTxStruct(from, pubkey string, sequence uint32, to string, amount, fee ui
 	txStruct.TransactionType = getTransactionTypeBytes(PAYMENT)
 	txStruct.Flags = getFlagsBytes(TxCanonicalSignature)
 	txStruct.Sequence = getSequenceBytes(sequence)
+	if destinationTag > 0xffffffff {
+		return nil, errors.New("Destination tag is too large!")
+	}
 	txStruct.DestinationTag = getDestinationTagBytes(destinationTag)
 	txStruct.LastLedgerSequence = getLastLedgerSequenceBytes(lastLedgerSequence)
 	txStruct.Amount, err = getAmountBytes(amount)
-- 
2.43.0


From 580ed6ecbbfe8b5d8d36b925ab16bda147e3752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:18 +0000
Subject: [PATCH 098/132] fix: rippleTransaction combined signatures of other
 keys and misplaced signatures, and crashed on malformed keys

---
 rippleTransaction/transaction.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/rippleTransaction/transaction.go b/rippleTransaction/transaction.go
index 7635b80..7677195 100644
--- a/rippleTransaction/transaction.go
+++ b/rippleTransaction/transaction.go
@@ -41,7 +41,17 @@ func VerifyAndCombinRawTransaction(emptyTrans string, signature, publicKey strin
 	if err != nil {
 		return false, ""
 	}
-	pubkeyBytes = owcrypt.PointDecompress(pubkeyBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	// the signature belongs right after the signing key the transaction names
+	marker := strings.Index(emptyTrans, "s")
+	if strings.Count(emptyTrans, "s") != 1 || len(pubkeyBytes) != 33 || len(sigBytes) != 64 ||
+		!strings.HasSuffix(strings.ToLower(emptyTrans[:marker]), "7321"+hex.EncodeToString(pubkeyBytes)) {
+		return false, ""
+	}
+	pubkeyBytes = owcrypt.PointDecompress(pubkeyBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubkeyBytes) != 65 {
+		return false, ""
+	}
+	pubkeyBytes = pubkeyBytes[1:]
 	if owcrypt.SUCCESS != owcrypt.Verify(pubkeyBytes, nil, hash, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
-- 
2.43.0


From db28cf920208f8fcc088eadea6380ee21eaa8e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:07 +0000
Subject: [PATCH 099/132] fix: cosmosTransaction and evaioTransaction rewrote
 the fee of their caller and crashed on an empty one

---
 cosmosTransaction/txStruct.go | 10 +++++++---
 evaioTransaction/txStruct.go  | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/cosmosTransaction/txStruct.go b/cosmosTransaction/txStruct.go
index 85e803a..e99187c 100644
--- a/cosmosTransaction/txStruct.go
+++ b/cosmosTransaction/txStruct.go
@@ -12,13 +12,17 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
-		fee.Amount = Coins{}
+	stdFee := FeeStruct{}
+	if fee != nil {
+		stdFee = *fee
+	}
+	if len(stdFee.Amount) == 0 || stdFee.Amount[0].Amount == "" {
+		stdFee.Amount = Coins{}
 	}
 	return TxStruct{
 		AccountNumber: strconv.FormatInt(int64(accountNumber), 10),
 		ChainID:       chainID,
-		Fee:           *fee,
+		Fee:           stdFee,
 		Memo:          memo,
 		Message:       message,
 		Sequence:      strconv.FormatInt(int64(sequence), 10),
diff --git a/evaioTransaction/txStruct.go b/evaioTransaction/txStruct.go
index 7cbfcae..a6642a9 100644
--- a/evaioTransaction/txStruct.go
+++ b/evaioTransaction/txStruct.go
@@ -12,13 +12,17 @@ type TxStruct struct {
 }
 
 func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStruct, message []Message) TxStruct {
-	if fee.Amount[0].Amount == "" {
-		fee.Amount = Coins{}
+	stdFee := FeeStruct{}
+	if fee != nil {
+		stdFee = *fee
+	}
+	if len(stdFee.Amount) == 0 || stdFee.Amount[0].Amount == "" {
+		stdFee.Amount = Coins{}
 	}
 	return TxStruct{
 		AccountNumber: strconv.FormatInt(int64(accountNumber), 10),
 		ChainID:       chainID,
-		Fee:           *fee,
+		Fee:           stdFee,
 		Memo:          memo,
 		Message:       message,
 		Sequence:      strconv.FormatInt(int64(sequence), 10),
-- 
2.43.0


From 7cf0fe90ec22f92e3416eb2ed6c139e35927cb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:07 +0000
Subject: [PATCH 100/132] fix: cosmosTransaction and evaioTransaction crashed
 on private keys they cannot sign with

---
 cosmosTransaction/transaction.go | 3 +--
 evaioTransaction/transaction.go  | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/cosmosTransaction/transaction.go b/cosmosTransaction/transaction.go
index e320dfb..44a76c5 100644
--- a/cosmosTransaction/transaction.go
+++ b/cosmosTransaction/transaction.go
@@ -56,11 +56,10 @@ func SignTransactionHash(txHash string, prikey []byte) (string, error) {
 	}
 
 	sig,_, ret := owcrypt.Signature(prikey, nil, hash, owcrypt.ECC_CURVE_SECP256K1)
-	sig = serilizeS(sig)
-
 	if ret != owcrypt.SUCCESS {
 		return "", errors.New("Signature failed!")
 	}
+	sig = serilizeS(sig)
 
 	return hex.EncodeToString(sig), nil
 }
diff --git a/evaioTransaction/transaction.go b/evaioTransaction/transaction.go
index 073f867..b06bbe3 100644
--- a/evaioTransaction/transaction.go
+++ b/evaioTransaction/transaction.go
@@ -56,11 +56,10 @@ func SignTransactionHash(txHash string, prikey []byte) (string, error) {
 	}
 
 	sig,_, ret := owcrypt.Signature(prikey, nil, hash, owcrypt.ECC_CURVE_SECP256K1)
-	sig = serilizeS(sig)
-
 	if ret != owcrypt.SUCCESS {
 		return "", errors.New("Signature failed!")
 	}
+	sig = serilizeS(sig)
 
 	return hex.EncodeToString(sig), nil
 }
-- 
2.43.0


From 3a8af9730237f6f02fb8400a6e34f08f370c9258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:07 +0000
Subject: [PATCH 101/132] fix: cosmosTransaction and evaioTransaction hashed
 requests with broken addresses, negative numbers or nothing to send

---
 cosmosTransaction/transaction.go |  3 ++
 cosmosTransaction/txStruct.go    | 53 +++++++++++++++++++++++++++++++-
 evaioTransaction/transaction.go  |  3 ++
 evaioTransaction/txStruct.go     | 53 +++++++++++++++++++++++++++++++-
 4 files changed, 110 insertions(+), 2 deletions(-)

diff --git a/cosmosTransaction/transaction.go b/cosmosTransaction/transaction.go
index 44a76c5..b4edfc8 100644
--- a/cosmosTransaction/transaction.go
+++ b/cosmosTransaction/transaction.go
@@ -11,6 +11,9 @@ import (
 )
 
 func (tx TxStruct) CreateEmptyTransactionAndHash() (string, string, error) {
+	if err := tx.validate(); err != nil {
+		return "", "", err
+	}
 
 	txBytes, err := json.Marshal(tx)
 	if err != nil {
diff --git a/cosmosTransaction/txStruct.go b/cosmosTransaction/txStruct.go
index e99187c..359d073 100644
--- a/cosmosTransaction/txStruct.go
+++ b/cosmosTransaction/txStruct.go
@@ -1,6 +1,10 @@
 package cosmosTransaction
 
-import "strconv"
+import (
+	"errors"
+	"strconv"
+	"strings"
+)
 
 type TxStruct struct {
 	AccountNumber string    `json:"account_number"`
@@ -28,3 +32,50 @@ func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStru
 		Sequence:      strconv.FormatInt(int64(sequence), 10),
 	}
 }
+
+// validate refuses requests no node would take: broken addresses, and amounts and numbers that are none
+func (tx TxStruct) validate() error {
+	for _, number := range []string{tx.AccountNumber, tx.Sequence, tx.Fee.Gas} {
+		if !isUnsigned(number) {
+			return errors.New("Invalid account number, sequence or gas!")
+		}
+	}
+	if err := tx.Fee.Amount.validate(); err != nil {
+		return err
+	}
+	if len(tx.Message) == 0 {
+		return errors.New("Miss message!")
+	}
+	for _, msg := range tx.Message {
+		from, to := msg.Value.FromAddress, msg.Value.ToAddress
+		for _, address := range []string{from, to} {
+			if hash, err := Bech32Decode(address); err != nil || len(hash) != 20 {
+				return ErrorInvalidAddress
+			}
+		}
+		if strings.Split(from, "1")[0] != strings.Split(to, "1")[0] {
+			return ErrorInvalidAddress
+		}
+		if len(msg.Value.Amount) == 0 {
+			return errors.New("Miss amount!")
+		}
+		if err := msg.Value.Amount.validate(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func (coins Coins) validate() error {
+	for _, coin := range coins {
+		if coin.Denom == "" || !isUnsigned(coin.Amount) {
+			return errors.New("Invalid amount!")
+		}
+	}
+	return nil
+}
+
+func isUnsigned(number string) bool {
+	_, err := strconv.ParseUint(number, 10, 64)
+	return err == nil && number[0] != '+'
+}
diff --git a/evaioTransaction/transaction.go b/evaioTransaction/transaction.go
index b06bbe3..3835f5f 100644
--- a/evaioTransaction/transaction.go
+++ b/evaioTransaction/transaction.go
@@ -11,6 +11,9 @@ import (
 )
 
 func (tx TxStruct) CreateEmptyTransactionAndHash() (string, string, error) {
+	if err := tx.validate(); err != nil {
+		return "", "", err
+	}
 
 	txBytes, err := json.Marshal(tx)
 	if err != nil {
diff --git a/evaioTransaction/txStruct.go b/evaioTransaction/txStruct.go
index a6642a9..123efbe 100644
--- a/evaioTransaction/txStruct.go
+++ b/evaioTransaction/txStruct.go
@@ -1,6 +1,10 @@
 package evaioTransaction
 
-import "strconv"
+import (
+	"errors"
+	"strconv"
+	"strings"
+)
 
 type TxStruct struct {
 	AccountNumber string    `json:"account_number"`
@@ -28,3 +32,50 @@ func NewTxStruct(chainID, memo string, accountNumber, sequence int, fee *FeeStru
 		Sequence:      strconv.FormatInt(int64(sequence), 10),
 	}
 }
+
+// validate refuses requests no node would take: broken addresses, and amounts and numbers that are none
+func (tx TxStruct) validate() error {
+	for _, number := range []string{tx.AccountNumber, tx.Sequence, tx.Fee.Gas} {
+		if !isUnsigned(number) {
+			return errors.New("Invalid account number, sequence or gas!")
+		}
+	}
+	if err := tx.Fee.Amount.validate(); err != nil {
+		return err
+	}
+	if len(tx.Message) == 0 {
+		return errors.New("Miss message!")
+	}
+	for _, msg := range tx.Message {
+		from, to := msg.Value.FromAddress, msg.Value.ToAddress
+		for _, address := range []string{from, to} {
+			if hash, err := Bech32Decode(address); err != nil || len(hash) != 20 {
+				return ErrorInvalidAddress
+			}
+		}
+		if strings.Split(from, "1")[0] != strings.Split(to, "1")[0] {
+			return ErrorInvalidAddress
+		}
+		if len(msg.Value.Amount) == 0 {
+			return errors.New("Miss amount!")
+		}
+		if err := msg.Value.Amount.validate(); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+func (coins Coins) validate() error {
+	for _, coin := range coins {
+		if coin.Denom == "" || !isUnsigned(coin.Amount) {
+			return errors.New("Invalid amount!")
+		}
+	}
+	return nil
+}
+
+func isUnsigned(number string) bool {
+	_, err := strconv.ParseUint(number, 10, 64)
+	return err == nil && number[0] != '+'
+}
-- 
2.43.0


From a1e119299dbf34f2bb6e710810dff16db1cf3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:07 +0000
Subject: [PATCH 102/132] fix: binancechainTransaction accepted addresses of
 any length, amounts and numbers below zero

---
 binancechainTransaction/msg-send.go    | 8 ++++++--
 binancechainTransaction/transaction.go | 4 ++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/binancechainTransaction/msg-send.go b/binancechainTransaction/msg-send.go
index ad8ca71..ce9a0be 100644
--- a/binancechainTransaction/msg-send.go
+++ b/binancechainTransaction/msg-send.go
@@ -13,7 +13,7 @@ func CreateSendMsg(fromAddress, toAddress, denom string, amount int64) (*msg.Sen
 		return nil, err
 	}
 
-	if prefix != Bech32Prefix {
+	if prefix != Bech32Prefix || len(from) != 20 {
 		return nil, errors.New("Invalid address!")
 	}
 
@@ -22,10 +22,14 @@ func CreateSendMsg(fromAddress, toAddress, denom string, amount int64) (*msg.Sen
 		return nil, err
 	}
 
-	if prefix != Bech32Prefix {
+	if prefix != Bech32Prefix || len(to) != 20 {
 		return nil, errors.New("Invalid address!")
 	}
 
+	if amount <= 0 {
+		return nil, errors.New("Invalid amount!")
+	}
+
 	coin := ctypes.Coin{
 		Denom:denom,
 		Amount:amount,
diff --git a/binancechainTransaction/transaction.go b/binancechainTransaction/transaction.go
index 5115741..5901e56 100644
--- a/binancechainTransaction/transaction.go
+++ b/binancechainTransaction/transaction.go
@@ -10,6 +10,10 @@ import (
 )
 
 func CreateEmptyTransactionAndHash(from , to, denom string, amount, accountNumber, sequence, source int64, memo string) (string, string, error) {
+	if accountNumber < 0 || sequence < 0 {
+		return "", "", errors.New("Invalid account number or sequence!")
+	}
+
 	sendMsg, err := CreateSendMsg(from, to, denom, amount)
 	if err != nil {
 		return "", "", err
-- 
2.43.0


From 0d1c9ea2dda66a7c1e30007648d88faf15b6243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:07 +0000
Subject: [PATCH 103/132] fix: binancechainTransaction crashed on malformed
 keys and transactions without message

---
 binancechainTransaction/transaction.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/binancechainTransaction/transaction.go b/binancechainTransaction/transaction.go
index 5901e56..5ec99cf 100644
--- a/binancechainTransaction/transaction.go
+++ b/binancechainTransaction/transaction.go
@@ -60,6 +60,9 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, pubkey string) (bool,
 		return false, ""
 	}
 	signMsg.Memo = stdSignDoc.Memo
+	if len(stdSignDoc.Msgs) != 1 {
+		return false, ""
+	}
 	err = json.Unmarshal(stdSignDoc.Msgs[0], &sendMsg)
 	if err != nil {
 		return false, ""
@@ -87,7 +90,11 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, pubkey string) (bool,
 		 return false, ""
 	}
 
-	pubUncompressedBytes := owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	pubUncompressedBytes := owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubUncompressedBytes) != 65 {
+		return false, ""
+	}
+	pubUncompressedBytes = pubUncompressedBytes[1:]
 	hash := tx.StdSignBytes(ChainID, signMsg.AccountNumber, signMsg.Sequence, signMsg.Msgs, signMsg.Memo, signMsg.Source, signMsg.Data)
 
 	hash = owcrypt.Hash(hash, 0, owcrypt.HASH_ALG_SHA256)
-- 
2.43.0


From c8f4ea3980621546d66db5905ac1a1dc075b9402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:07 +0000
Subject: [PATCH 104/132] fix: binancechainTransaction combined signatures of
 accounts that do not pay, and texts other than the signed one

---
 binancechainTransaction/transaction.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/binancechainTransaction/transaction.go b/binancechainTransaction/transaction.go
index 5ec99cf..89f73e2 100644
--- a/binancechainTransaction/transaction.go
+++ b/binancechainTransaction/transaction.go
@@ -1,6 +1,7 @@
 package binancechainTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"encoding/json"
 	"errors"
@@ -97,6 +98,12 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, pubkey string) (bool,
 	pubUncompressedBytes = pubUncompressedBytes[1:]
 	hash := tx.StdSignBytes(ChainID, signMsg.AccountNumber, signMsg.Sequence, signMsg.Msgs, signMsg.Memo, signMsg.Source, signMsg.Data)
 
+	// what was signed has to be the text that was handed over, by the account that pays
+	if string(hash) != emptyTrans || len(sendMsg.Inputs) != 1 ||
+		!bytes.Equal(sendMsg.Inputs[0].Address, owcrypt.Hash(pubBytes, 0, owcrypt.HASH_ALG_HASH160)) {
+		return false, ""
+	}
+
 	hash = owcrypt.Hash(hash, 0, owcrypt.HASH_ALG_SHA256)
 
 	if owcrypt.SUCCESS != owcrypt.Verify(pubUncompressedBytes, nil, hash, sigBytes, owcrypt.ECC_CURVE_SECP256K1) {
-- 
2.43.0


From 5f95554aebc668bc33d59253c81742c06b8c6a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:46 +0000
Subject: [PATCH 105/132] fix: polkadotTransaction encoded numbers from 2^63
 with a wrong length

---
 polkadotTransaction/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polkadotTransaction/codec.go b/polkadotTransaction/codec.go
index edd827e..80b60dc 100644
--- a/polkadotTransaction/codec.go
+++ b/polkadotTransaction/codec.go
@@ -89,7 +89,7 @@ func BytesToCompactBytes(bytes []byte) (res []byte) {
 }
 
 func getLeadingZeros(data uint64) int {
-	return 64 - big.NewInt(int64(data)).BitLen()
+	return 64 - new(big.Int).SetUint64(data).BitLen()
 }
 
 func getPrefix(data uint64) string {
-- 
2.43.0


From 936e92287b11282d5c8869f98b5de58adea2aa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:46 +0000
Subject: [PATCH 106/132] fix: polkadotTransaction Encode crashed on zero

---
 polkadotTransaction/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polkadotTransaction/codec.go b/polkadotTransaction/codec.go
index 80b60dc..163fb68 100644
--- a/polkadotTransaction/codec.go
+++ b/polkadotTransaction/codec.go
@@ -38,7 +38,7 @@ func uint32ToLittleEndianBytes(data uint32) []byte {
 
 func removeExtraLEBytes(input []byte) []byte {
 	index := len(input)
-	for {
+	for index > 0 {
 		if input[index-1] != 0 {
 			break
 		} else {
-- 
2.43.0


From 60173ab807c24b29259ae1c176cc4bc18db8123e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:46 +0000
Subject: [PATCH 107/132] fix: polkadotTransaction went on with malformed
 sender keys, signatures and transfer codes

---
 polkadotTransaction/txMethod.go | 5 ++++-
 polkadotTransaction/txStruct.go | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/polkadotTransaction/txMethod.go b/polkadotTransaction/txMethod.go
index cc85c5c..710bb88 100644
--- a/polkadotTransaction/txMethod.go
+++ b/polkadotTransaction/txMethod.go
@@ -38,7 +38,10 @@ func (mt MethodTransfer) ToBytes(transferCode string) ([]byte, error) {
 		return nil, errors.New("invalid method")
 	}
 
-	ret, _ := hex.DecodeString(transferCode)
+	ret, err := hex.DecodeString(transferCode)
+	if err != nil || len(ret) == 0 {
+		return nil, errors.New("invalid transfer code")
+	}
 	if AccounntIDFollow {
 		ret = append(ret, 0xff)
 	}
diff --git a/polkadotTransaction/txStruct.go b/polkadotTransaction/txStruct.go
index 8f4a389..041c253 100644
--- a/polkadotTransaction/txStruct.go
+++ b/polkadotTransaction/txStruct.go
@@ -25,6 +25,10 @@ type TxStruct struct {
 
 func (tx TxStruct) NewTxPayLoad(transfer_code string) (*TxPayLoad, error) {
 	var tp TxPayLoad
+	sender, err := hex.DecodeString(tx.SenderPubkey)
+	if err != nil || len(sender) != 32 {
+		return nil, errors.New("invalid sender public key")
+	}
 	method, err := NewMethodTransfer(tx.RecipientPubkey, tx.Amount)
 	if err != nil {
 		return nil, err
@@ -115,7 +119,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	from, err := hex.DecodeString(ts.SenderPubkey)
 	if err != nil || len(from) != 32 {
-		return "", nil
+		return "", errors.New("invalid sender public key")
 	}
 
 	signed = append(signed, from...)
@@ -124,7 +128,7 @@ func (ts TxStruct) GetSignedTransaction (transfer_code, signature string) (strin
 
 	sig, err := hex.DecodeString(signature)
 	if err != nil || len(sig) != 64 {
-		return "", nil
+		return "", errors.New("invalid signature")
 	}
 	signed = append(signed, sig...)
 
-- 
2.43.0


From 30be3d8ebbfdf0d4c58911cc2e7db1bee1d845db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:46 +0000
Subject: [PATCH 108/132] fix: virtualeconomyTransaction dropped the attachment
 and wrote transaction types and amounts it cannot read

---
 virtualeconomyTransaction/transaction.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/virtualeconomyTransaction/transaction.go b/virtualeconomyTransaction/transaction.go
index fb0cf1b..161b74c 100644
--- a/virtualeconomyTransaction/transaction.go
+++ b/virtualeconomyTransaction/transaction.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 	"encoding/json"
 	"errors"
+	"math"
 	"time"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
@@ -28,6 +29,12 @@ type SignaturePubkey struct {
 // 创建空交易单
 // only transfer for now
 func CreateEmptyTransaction(ts TxStruct) (string, error) {
+	if ts.TxType != TxTypeTransfer || ts.Attachment != "" {
+		return "", errors.New("Only transfers without attachment are supported yet!")
+	}
+	if ts.Amount > math.MaxInt64 || ts.Fee > math.MaxInt64 {
+		return "", errors.New("Invalid amount or fee!")
+	}
 	timestamp := make([]byte, 8)
 	amount := make([]byte, 8)
 	fee := make([]byte, 8)
-- 
2.43.0


From e454a211a9672e6ed9fd16db0a9c4356d2f11c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:46 +0000
Subject: [PATCH 109/132] fix: virtualeconomyTransaction verified altered
 public keys and crashed on missing signatures

---
 virtualeconomyTransaction/transaction.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/virtualeconomyTransaction/transaction.go b/virtualeconomyTransaction/transaction.go
index 161b74c..87ce2d3 100644
--- a/virtualeconomyTransaction/transaction.go
+++ b/virtualeconomyTransaction/transaction.go
@@ -94,6 +94,11 @@ func VerifyTransaction(emptyTrans string, sp *SignaturePubkey) bool {
 		return false
 	}
 
+	// the sign bit of the public key is not part of its encoding
+	if sp == nil || len(sp.PublicKey) != 32 || sp.PublicKey[31]&0x80 != 0 || len(sp.Signature) != 64 {
+		return false
+	}
+
 	pass := owcrypt.Verify(sp.PublicKey, nil, txBytes, sp.Signature, owcrypt.ECC_CURVE_X25519)
 
 	if pass != owcrypt.SUCCESS {
@@ -109,6 +114,10 @@ func CreateJSONRawForSendTransaction(emptyTrans string, sp *SignaturePubkey) (*g
 		body = make(map[string]interface{}, 0)
 	)
 
+	if sp == nil {
+		return nil, errors.New("Miss signature!")
+	}
+
 	txBytes, err := hex.DecodeString(emptyTrans)
 	if err != nil {
 		return nil, errors.New("Invalid transaction hex string!")
-- 
2.43.0


From 517ab25d8d70f19fabfb0db59e7a5f73d05bc79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:46 +0000
Subject: [PATCH 110/132] fix: moacchainTransaction wrote numbers below 128 in
 a non-canonical form that nodes refuse

---
 moacchainTransaction/txUtils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/moacchainTransaction/txUtils.go b/moacchainTransaction/txUtils.go
index 7865861..c2673e8 100644
--- a/moacchainTransaction/txUtils.go
+++ b/moacchainTransaction/txUtils.go
@@ -34,6 +34,9 @@ func getUint64Bytes(data uint64) []byte {
 
 func getBigIntBytes(data *big.Int) []byte {
 	ret := data.Bytes()
+	if len(ret) == 1 && ret[0] < 0x80 {
+		return ret
+	}
 
 	return append(getLengthBytes(len(ret)), ret...)
 }
-- 
2.43.0


From 6138d873c26bec73150ac114e4c1052be379af1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:46 +0000
Subject: [PATCH 111/132] fix: moacchainTransaction crashed on short addresses
 and missing amounts and dropped the sign of negative ones

---
 moacchainTransaction/txStruct.go | 5 +++++
 moacchainTransaction/txUtils.go  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/moacchainTransaction/txStruct.go b/moacchainTransaction/txStruct.go
index 1d3052b..42c6efd 100644
--- a/moacchainTransaction/txStruct.go
+++ b/moacchainTransaction/txStruct.go
@@ -23,6 +23,11 @@ type TxStruct struct {
 
 func NewTxStruct(to string, nonce uint64, amount, gasLimit, gasPrice *big.Int, signature []byte, isTestNet bool) (*TxStruct, error) {
 	var tx TxStruct
+	for _, number := range []*big.Int{amount, gasLimit, gasPrice} {
+		if number == nil || number.Sign() < 0 || number.BitLen() > 256 {
+			return nil, errors.New("Invalid amount, gas limit or gas price!")
+		}
+	}
 	tx.Nonce = getUint64Bytes(nonce)
 	tx.SystemContract = getUint64Bytes(0) // not contract
 	tx.GasPrice = getBigIntBytes(gasPrice)
diff --git a/moacchainTransaction/txUtils.go b/moacchainTransaction/txUtils.go
index c2673e8..4464d95 100644
--- a/moacchainTransaction/txUtils.go
+++ b/moacchainTransaction/txUtils.go
@@ -109,7 +109,7 @@ func putint(b []byte, i uint64) (size int) {
 }
 
 func getAddressHashBytes(address string) ([]byte, error) {
-	if address[:2] != "0x" {
+	if len(address) < 2 || address[:2] != "0x" {
 		return nil, errors.New("Invalid address!")
 	}
 	hash, err := hex.DecodeString(address[2:])
-- 
2.43.0


From 1ba054d9cc0e80570081a5f7a15d30e74ae5a59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:46 +0000
Subject: [PATCH 112/132] fix: moacchainTransaction could not combine
 transactions of 56 bytes or more and signed for another chain id than the
 digest

---
 moacchainTransaction/transaction.go | 25 +++++---
 moacchainTransaction/txStruct.go    | 96 +++++------------------------
 2 files changed, 30 insertions(+), 91 deletions(-)

diff --git a/moacchainTransaction/transaction.go b/moacchainTransaction/transaction.go
index 52f9ffb..6ec8333 100644
--- a/moacchainTransaction/transaction.go
+++ b/moacchainTransaction/transaction.go
@@ -1,6 +1,7 @@
 package moacchainTransaction
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 	"math/big"
@@ -49,16 +50,22 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if owcrypt.SUCCESS != owcrypt.Verify(pub, nil, hash, sig[:64], owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
 	}
-	if len(txBytes) < 57 {
-		head := getHeadBytes(SmallTag, LargeTag, uint64(len(txBytes)-1))
-		if head[0] != txBytes[0] {
-			return false, ""
-		}
-	} else {
-		//
+	headLen := 1
+	if len(txBytes) > 56 {
+		headLen = 2
 	}
-	tx, err := decodeEmpty(txBytes[1:])
-	if err != nil {
+	if len(txBytes) < headLen {
+		return false, ""
+	}
+	tx, err := decodeEmpty(txBytes[headLen:])
+	if err != nil || !bytes.Equal(tx.ToBytes(), txBytes) {
+		return false, ""
+	}
+	chainID := ChainIDMainnet
+	if isTestNet {
+		chainID = ChainIDTestnet
+	}
+	if tx.ChainID[0] != chainID {
 		return false, ""
 	}
 	tx.addSig(sig, isTestNet)
diff --git a/moacchainTransaction/txStruct.go b/moacchainTransaction/txStruct.go
index 42c6efd..cac44d8 100644
--- a/moacchainTransaction/txStruct.go
+++ b/moacchainTransaction/txStruct.go
@@ -86,91 +86,21 @@ func decodeEmpty(txBytes []byte) (*TxStruct, error) {
 	limit := len(txBytes)
 	index := 0
 
-	if index+1 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	if txBytes[index] <= 0x80 {
-		tx.Nonce = txBytes[index : index+1]
-		index++
-	} else {
-		if index+1+int(txBytes[index])-0x80 > limit {
+	fields := []*[]byte{&tx.Nonce, &tx.SystemContract, &tx.GasPrice, &tx.GasLimit, &tx.Recipient, &tx.Amount, &tx.Payload, &tx.ShardingFlag, &tx.Via}
+	for _, field := range fields {
+		if index+1 > limit {
 			return nil, errors.New("Invalid!")
 		}
-		tx.Nonce = txBytes[index : index+1+int(txBytes[index])-0x80]
-		index += (1 + int(txBytes[index]) - 0x80)
-	}
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.SystemContract = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.GasPrice = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.GasLimit = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.Recipient = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.Amount = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.Payload = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
-	}
-	tx.ShardingFlag = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
-
-	if index+1 > limit || txBytes[index] < 0x80 {
-		return nil, errors.New("Invalid!")
-	}
-	if index+1+int(txBytes[index])-0x80 > limit {
-		return nil, errors.New("Invalid!")
+		size := 1
+		if txBytes[index] > 0x80 {
+			size = 1 + int(txBytes[index]) - 0x80
+		}
+		if index+size > limit {
+			return nil, errors.New("Invalid!")
+		}
+		*field = txBytes[index : index+size]
+		index += size
 	}
-	tx.Via = txBytes[index : index+1+int(txBytes[index])-0x80]
-	index += (1 + int(txBytes[index]) - 0x80)
 
 	if index+1 > limit {
 		return nil, errors.New("Invalid!")
@@ -182,6 +112,8 @@ func decodeEmpty(txBytes []byte) (*TxStruct, error) {
 	if index+2 != limit || txBytes[index] != 0x80 || txBytes[index+1] != 0x80 {
 		return nil, errors.New("Invalid!")
 	}
+	tx.R = getLengthBytes(0)
+	tx.S = getLengthBytes(0)
 
 	return &tx, nil
 }
-- 
2.43.0


From d44e6c912d02292811c074fce8595e016878ad8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:46 +0000
Subject: [PATCH 113/132] fix: moacchainTransaction crashed on signatures no
 key can be recovered from

---
 moacchainTransaction/transaction.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/moacchainTransaction/transaction.go b/moacchainTransaction/transaction.go
index 6ec8333..1707e87 100644
--- a/moacchainTransaction/transaction.go
+++ b/moacchainTransaction/transaction.go
@@ -43,6 +43,15 @@ func VerifyAndCombineRawTransaction(emptyTrans, signature, publicKey string, isT
 	if err != nil || len(sig) != 65 || (sig[64] != 0x01) && sig[64] != 0x00 {
 		return false, ""
 	}
+	// recovering a key needs a valid signature
+	given, err := hex.DecodeString(publicKey)
+	if err != nil || len(given) != 33 {
+		return false, ""
+	}
+	given = owcrypt.PointDecompress(given, owcrypt.ECC_CURVE_SECP256K1)
+	if len(given) != 65 || owcrypt.SUCCESS != owcrypt.Verify(given[1:], nil, hash, sig[:64], owcrypt.ECC_CURVE_SECP256K1) {
+		return false, ""
+	}
 	pub, retCode := owcrypt.RecoverPubkey(sig, hash, owcrypt.ECC_CURVE_SECP256K1)
 	if retCode != owcrypt.SUCCESS || strings.ToLower(hex.EncodeToString(owcrypt.PointCompress(pub, owcrypt.ECC_CURVE_SECP256K1))) != strings.ToLower(publicKey) {
 		return false, ""
-- 
2.43.0


From 8ec6a33ebe6b3e164ede558b35257e10310c3ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:46 +0000
Subject: [PATCH 114/132] fix: filenetTransaction reordered the outputs of its
 caller

---
 filenetTransaction/txStruct.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filenetTransaction/txStruct.go b/filenetTransaction/txStruct.go
index e1283e2..cfaf712 100644
--- a/filenetTransaction/txStruct.go
+++ b/filenetTransaction/txStruct.go
@@ -45,6 +45,7 @@ func NewTxStruct(in Vin, outs Vouts) (*TxStruct, error) {
 
 	trans.ToCount = uint64ToLittleEndianBytes(uint64(outCount))
 
+	outs = append(Vouts{}, outs...)
 	sort.Sort(outs)
 
 	totleAmount := uint64(0)
-- 
2.43.0


From 9cd85bee0f1775b8e6eb4506edb79dba97454915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:46 +0000
Subject: [PATCH 115/132] fix: filenetTransaction wrote a wrong total when the
 amounts overflow

---
 filenetTransaction/txStruct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filenetTransaction/txStruct.go b/filenetTransaction/txStruct.go
index cfaf712..42fb62b 100644
--- a/filenetTransaction/txStruct.go
+++ b/filenetTransaction/txStruct.go
@@ -57,6 +57,9 @@ func NewTxStruct(in Vin, outs Vouts) (*TxStruct, error) {
 			return nil, errors.New("Invalid amount!")
 		}
 
+		if totleAmount+out.Amount < totleAmount {
+			return nil, errors.New("Invalid amount!")
+		}
 		totleAmount += out.Amount
 
 		toBytes, err := decodeAddress(out.Address)
-- 
2.43.0


From c301221d0e8328fb38afb596f6d8b15ef1edcc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:46 +0000
Subject: [PATCH 116/132] fix: filenetTransaction crashed on malformed keys and
 ran out of memory on wrong output counts

---
 filenetTransaction/transaction.go | 9 ++++++++-
 filenetTransaction/txStruct.go    | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/filenetTransaction/transaction.go b/filenetTransaction/transaction.go
index 1232413..d0f40c4 100644
--- a/filenetTransaction/transaction.go
+++ b/filenetTransaction/transaction.go
@@ -66,7 +66,14 @@ func VerifyAndCombineTransaction(emptyTrans, signature, pubkey  string) (string,
 		return "", false
 	}
 
-	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	if len(pubBytes) != 33 {
+		return "", false
+	}
+	pubBytes = owcrypt.PointDecompress(pubBytes, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubBytes) != 65 {
+		return "", false
+	}
+	pubBytes = pubBytes[1:]
 
 	if owcrypt.SUCCESS != owcrypt.Verify(pubBytes, nil, hash, sig, owcrypt.ECC_CURVE_SECP256K1) {
 		return "", false
diff --git a/filenetTransaction/txStruct.go b/filenetTransaction/txStruct.go
index 42fb62b..a208f98 100644
--- a/filenetTransaction/txStruct.go
+++ b/filenetTransaction/txStruct.go
@@ -162,6 +162,9 @@ func decodeRawTransaction(emptyTrans, signature string) (*Transfer, error) {
 	transfer.Timestamp = int64(littleEndianBytesToUint64(txBytes[index:index+8]))
 	index += 8
 
+	if toCount != uint64(limit-index)/28 {
+		return nil, errors.New("Invalid empty transaction hex string!")
+	}
 	txDetalis := make(TransferDetails, toCount)
 	for i := 0; i < int(toCount); i ++ {
 		if index + 28 > limit {
-- 
2.43.0


From 59768a688f49fff5d8d4da80644d79944fee746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:11 +0000
Subject: [PATCH 117/132] fix: ontologyTransaction could not decode its own
 signed transactions

---
 ontologyTransaction/txStruct.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ontologyTransaction/txStruct.go b/ontologyTransaction/txStruct.go
index 76d618b..2436247 100644
--- a/ontologyTransaction/txStruct.go
+++ b/ontologyTransaction/txStruct.go
@@ -196,15 +196,10 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 		if index != limit {
 			return nil, errors.New("Invalid transaction data!")
 		}
-	} else if txBytes[index] == 0x01 {
-		sigpub, err := decodeSigPubBytes(txBytes[index:])
-		if err != nil {
-			return nil, err
-		}
-		tx.SigDatas = append(tx.SigDatas, SigData{0, []SigPub{*sigpub}})
 	} else {
 		sigLen := int(txBytes[index])
 		index++
+		tx.SigDatas = []SigData{{}}
 
 		for i := 0; i < sigLen; i++ {
 			if index+102 > limit {
@@ -214,7 +209,7 @@ func DecodeRawTransaction(txBytes []byte) (*Transaction, error) {
 			if err != nil {
 				return nil, err
 			}
-			tx.SigDatas = append(tx.SigDatas, SigData{0, []SigPub{*sigpub}})
+			tx.SigDatas[0].SigPubs = append(tx.SigDatas[0].SigPubs, *sigpub)
 			index += 102
 		}
 		if index != limit {
-- 
2.43.0


From 3b843111718c56df30024ac43578b6ee4ac04377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:11 +0000
Subject: [PATCH 118/132] fix: ontologyTransaction crashed on malformed public
 keys

---
 ontologyTransaction/transaction.go | 10 +++++++++-
 ontologyTransaction/txSigPub.go    |  3 +++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index cd77e3f..f40cb14 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -1,6 +1,7 @@
 package ontologyTransaction
 
 import (
+	"crypto/elliptic"
 	"crypto/rand"
 	"encoding/hex"
 	"errors"
@@ -99,7 +100,14 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 	hashBytes := owcrypt.Hash(owcrypt.Hash(txBytes[:len(txBytes)-1], 0, owcrypt.HASH_ALG_DOUBLE_SHA256), 0, owcrypt.HASH_ALG_SHA256)
 	sigData.Nrequired = 0
 	for _, sp := range sigpub {
-		pubkey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)[1:]
+		if len(sp.PublicKey) != 33 || (sp.PublicKey[0] != 0x02 && sp.PublicKey[0] != 0x03) {
+			return false, "", errors.New("Invalid public key!")
+		}
+		pubkey := owcrypt.PointDecompress(sp.PublicKey, owcrypt.ECC_CURVE_SECP256R1)
+		if x, _ := elliptic.Unmarshal(elliptic.P256(), pubkey); x == nil {
+			return false, "", errors.New("Invalid public key!")
+		}
+		pubkey = pubkey[1:]
 		if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hashBytes, sp.Signature, owcrypt.ECC_CURVE_SECP256R1) {
 			return false, "", errors.New("failed to verify transaction!")
 		}
diff --git a/ontologyTransaction/txSigPub.go b/ontologyTransaction/txSigPub.go
index 4d9a442..d152dd1 100644
--- a/ontologyTransaction/txSigPub.go
+++ b/ontologyTransaction/txSigPub.go
@@ -105,6 +105,9 @@ func decodeSigPubBytes(sp []byte) (*SigPub, error) {
 	}
 	index += 2
 
+	if index+33 > limit {
+		return nil, errors.New("Invalid signature & public key data!")
+	}
 	ret.PublicKey = sp[index : index+33]
 	index += 33
 
-- 
2.43.0


From 940e2f81d550828638ef04527a13e7913d708395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:11 +0000
Subject: [PATCH 119/132] fix: ontologyTransaction completed transactions
 without any signature

---
 ontologyTransaction/transaction.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ontologyTransaction/transaction.go b/ontologyTransaction/transaction.go
index f40cb14..5811341 100644
--- a/ontologyTransaction/transaction.go
+++ b/ontologyTransaction/transaction.go
@@ -97,6 +97,10 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigpub []SigPub) (bool, s
 		return false, "", err
 	}
 
+	if tx.SigDatas != nil || len(sigpub) == 0 || len(sigpub) > 252 {
+		return false, "", errors.New("Invalid transaction or signatures!")
+	}
+
 	hashBytes := owcrypt.Hash(owcrypt.Hash(txBytes[:len(txBytes)-1], 0, owcrypt.HASH_ALG_DOUBLE_SHA256), 0, owcrypt.HASH_ALG_SHA256)
 	sigData.Nrequired = 0
 	for _, sp := range sigpub {
-- 
2.43.0


From 6d4f25b301cc12608596fb9478cc188248ba8bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:11 +0000
Subject: [PATCH 120/132] fix: ontologyTransaction accepted foreign payer
 addresses, unknown assets and amounts it cannot encode

---
 ontologyTransaction/txInvokeCode.go | 9 +++++++++
 ontologyTransaction/txStruct.go     | 7 +++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ontologyTransaction/txInvokeCode.go b/ontologyTransaction/txInvokeCode.go
index bdfbde9..b998e8b 100644
--- a/ontologyTransaction/txInvokeCode.go
+++ b/ontologyTransaction/txInvokeCode.go
@@ -61,6 +61,9 @@ func NewNativeInvokeV2(param TxStateV2) NativeInvokeV2 {
 }
 
 func (ni NativeInvoke) ToBytes() ([]byte, error) {
+	if ni.Param.AssetType != AssetONT && ni.Param.AssetType != AssetONG && ni.Param.AssetType != AssetONGWithdraw {
+		return nil, errors.New("Unknown asset type!")
+	}
 	ret := []byte{0x00}
 
 	ret = append(ret, OpCodeNewStruct, OpCodeToALTStack, OpCodeDupFromALTStack)
@@ -127,6 +130,12 @@ func (ni NativeInvoke) ToBytes() ([]byte, error) {
 }
 
 func (ni NativeInvokeV2) ToBytes() ([]byte, error) {
+	if ni.Param.AssetType != AssetONT && ni.Param.AssetType != AssetONG && ni.Param.AssetType != AssetONGWithdraw {
+		return nil, errors.New("Unknown asset type!")
+	}
+	if ni.Param.Amount == nil || ni.Param.Amount.Sign() < 0 || ni.Param.Amount.BitLen() > 255 {
+		return nil, errors.New("Invalid amount!")
+	}
 	ret := []byte{0x00}
 
 	ret = append(ret, OpCodeNewStruct, OpCodeToALTStack, OpCodeDupFromALTStack)
diff --git a/ontologyTransaction/txStruct.go b/ontologyTransaction/txStruct.go
index 2436247..12ba2c8 100644
--- a/ontologyTransaction/txStruct.go
+++ b/ontologyTransaction/txStruct.go
@@ -24,7 +24,10 @@ func NewEmptyTransaction(assetType int, txType byte, nonce uint32, gasPrice, gas
 	} else {
 		version = ONGContractVersion
 	}
-	_, payerBytes, _ := DecodeCheck(payer)
+	prefix, payerBytes, err := DecodeCheck(payer)
+	if err != nil || prefix != AddressPrefix {
+		payerBytes = nil // refused by ToBytes
+	}
 	return Transaction{version, txType, uint32ToLittleEndianBytes(nonce), uint64ToLittleEndianBytes(gasPrice), uint64ToLittleEndianBytes(gasLimit), payerBytes, payload, DefaultAttribute, nil}
 }
 
@@ -78,7 +81,7 @@ func (t Transaction) ToBytes() ([]byte, error) {
 		return nil, errors.New("Invalid payer!")
 	}
 	ret = append(ret, t.Payer...)
-	if t.Payload == nil || len(t.Payload) == 0 {
+	if t.Payload == nil || len(t.Payload) == 0 || len(t.Payload) > 252 {
 		return nil, errors.New("Invalid invoke code!")
 	}
 	ret = append(ret, byte(len(t.Payload)))
-- 
2.43.0


From 220c5243459514470f80861ff4fb1297048a5d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:11 +0000
Subject: [PATCH 121/132] fix: waykichainTransaction wrote register IDs that
 are out of range, padded or no ID at all as zero

---
 waykichainTransaction/txStruct.go | 46 +++++++++----------------------
 waykichainTransaction/txUtils.go  | 19 +++++++++++++
 2 files changed, 32 insertions(+), 33 deletions(-)

diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index be2fa1f..c4931a2 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -3,8 +3,6 @@ package waykichainTransaction
 import (
 	"encoding/hex"
 	"errors"
-	"strconv"
-	"strings"
 
 	owcrypt "github.com/blocktree/go-owcrypt"
 )
@@ -29,16 +27,11 @@ func NewCommonTx(fromUserID, toAddress string, amount, fee, validHeight int64) (
 	}
 	commonTx.ValidHeight = int64ToUvarint(validHeight)
 
-	if !isRegIdStr(fromUserID) {
+	idBytes, err := regIDToBytes(fromUserID)
+	if err != nil {
 		return nil, errors.New("Invalid from register ID!")
 	}
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
-	}
-	commonTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
+	commonTx.FromUserID = idBytes
 
 	destID, err := GetProgramHashFromAddress(toAddress)
 	if err != nil {
@@ -159,27 +152,16 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 		return nil, errors.New("Negative valid height!")
 	}
 	contractTx.ValidHeight = int64ToUvarint(validHeight)
-	if !isRegIdStr(fromUserID) {
+	idBytes, err := regIDToBytes(fromUserID)
+	if err != nil {
 		return nil, errors.New("Invalid from register ID!")
 	}
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
-	}
-	contractTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
+	contractTx.FromUserID = idBytes
 
-	if !isRegIdStr(appID) {
-		return nil, errors.New("Invalid from register ID!")
-	}
-	ids = strings.Split(appID, "-")
-	idBytes = []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	contractTx.AppID, err = regIDToBytes(appID)
+	if err != nil {
+		return nil, errors.New("Invalid app register ID!")
 	}
-	contractTx.AppID = append([]byte{byte(len(idBytes))}, idBytes...)
 
 	contractTx.Fee = int64ToUvarint(fee)
 
@@ -244,13 +226,11 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 	}
 	ucoinTransferTx.ValidHeight = int64ToUvarint(validHeight)
 
-	ids := strings.Split(fromUserID, "-")
-	idBytes := []byte{}
-	for _, id := range ids {
-		data, _ := strconv.ParseInt(id, 10, 64)
-		idBytes = append(idBytes, int64ToUvarint(data)...)
+	idBytes, err := regIDToBytes(fromUserID)
+	if err != nil {
+		return nil, errors.New("Invalid from register ID!")
 	}
-	ucoinTransferTx.FromUserID = append([]byte{byte(len(idBytes))}, idBytes...)
+	ucoinTransferTx.FromUserID = idBytes
 
 	ucoinTransferTx.FeeSymbol = append([]byte{byte(len(DefaultFeeSymbol))}, []byte(DefaultFeeSymbol)...)
 
diff --git a/waykichainTransaction/txUtils.go b/waykichainTransaction/txUtils.go
index 8b256f8..3945d5d 100644
--- a/waykichainTransaction/txUtils.go
+++ b/waykichainTransaction/txUtils.go
@@ -1,7 +1,10 @@
 package waykichainTransaction
 
 import (
+	"errors"
 	"regexp"
+	"strconv"
+	"strings"
 )
 
 func sizeofVarInt(value int64) int {
@@ -56,3 +59,19 @@ func isRegIdStr(regId string) bool {
 	re := regexp.MustCompile(`^\s*(\d+)\-(\d+)\s*$`)
 	return re.MatchString(regId)
 }
+
+// regIDToBytes encodes a register ID ("height-index") with its length
+func regIDToBytes(regID string) ([]byte, error) {
+	if !isRegIdStr(regID) {
+		return nil, errors.New("Invalid register ID!")
+	}
+	idBytes := []byte{}
+	for _, id := range strings.Split(strings.TrimSpace(regID), "-") {
+		data, err := strconv.ParseInt(id, 10, 64)
+		if err != nil {
+			return nil, errors.New("Invalid register ID!")
+		}
+		idBytes = append(idBytes, int64ToUvarint(data)...)
+	}
+	return append([]byte{byte(len(idBytes))}, idBytes...), nil
+}
-- 
2.43.0


From 8c23b95065cf96ebc81f859432051e6b71915071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:11 +0000
Subject: [PATCH 122/132] fix: waykichainTransaction wrote negative fees and
 amounts and registered keys that are none

---
 waykichainTransaction/txStruct.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index c4931a2..7077594 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -22,6 +22,9 @@ func NewCommonTx(fromUserID, toAddress string, amount, fee, validHeight int64) (
 
 	commonTx.TxType = TxType_COMMON
 	commonTx.Version = int64ToUvarint(Version)
+	if fee < 0 || amount < 0 {
+		return nil, errors.New("Negative fee or amount!")
+	}
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
@@ -90,12 +93,15 @@ func NewRegisterAccountTx(fromPubkey string, fee, validHeight int64) (*RegisterA
 
 	registerAccountTx.TxType = TxType_REGACCT
 	registerAccountTx.Version = int64ToUvarint(Version)
+	if fee < 0 {
+		return nil, errors.New("Negative fee!")
+	}
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
 	registerAccountTx.ValidHeight = int64ToUvarint(validHeight)
 	pubkey, err := hex.DecodeString(fromPubkey)
-	if err != nil || len(pubkey) != 0x21 {
+	if err != nil || len(pubkey) != 0x21 || len(owcrypt.PointDecompress(pubkey, owcrypt.ECC_CURVE_SECP256K1)) != 65 {
 		return nil, errors.New("Invalid public key data to register account!")
 	}
 	pubkey = append([]byte{byte(0x21)}, pubkey...)
@@ -148,6 +154,9 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 
 	contractTx.TxType = TxType_CONTRACT
 	contractTx.Version = int64ToUvarint(Version)
+	if fee < 0 || amount < 0 {
+		return nil, errors.New("Negative fee or amount!")
+	}
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
@@ -221,6 +230,9 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 	ucoinTransferTx.TxType = TxType_UcoinTransfer
 	ucoinTransferTx.Version = int64ToUvarint(Version)
 
+	if fee < 0 || amount < 0 {
+		return nil, errors.New("Negative fee or amount!")
+	}
 	if validHeight < 0 {
 		return nil, errors.New("Negative valid height!")
 	}
-- 
2.43.0


From 7bc6d6457b01a8253036eea0699572ebca8d06dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:11 +0000
Subject: [PATCH 123/132] fix: waykichainTransaction cut the length of
 contracts and coin names of 253 bytes or more

---
 waykichainTransaction/txStruct.go |  4 ++--
 waykichainTransaction/txUtils.go  | 11 +++++++++++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index 7077594..1520c83 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -180,7 +180,7 @@ func NewCallContractTx(fromUserID, appID, contractHex string, validHeight, fee,
 	if err != nil {
 		return nil, errors.New("Invalid contract hex!")
 	}
-	contractTx.ContractHex = append([]byte{byte(len(contract))}, contract...)
+	contractTx.ContractHex = append(compactSize(len(contract)), contract...)
 
 	return &contractTx, nil
 }
@@ -259,7 +259,7 @@ func NewUcoinTransferTx(fromUserID, toAddress, coin string, validHeight, fee, am
 		return nil, errors.New("Invalid coin name!")
 	}
 
-	ucoinTransferTx.CoinName = append([]byte{byte(len(coin))}, []byte(coin)...)
+	ucoinTransferTx.CoinName = append(compactSize(len(coin)), []byte(coin)...)
 
 	ucoinTransferTx.CoinAmount = int64ToUvarint(amount)
 
diff --git a/waykichainTransaction/txUtils.go b/waykichainTransaction/txUtils.go
index 3945d5d..060f36c 100644
--- a/waykichainTransaction/txUtils.go
+++ b/waykichainTransaction/txUtils.go
@@ -75,3 +75,14 @@ func regIDToBytes(regID string) ([]byte, error) {
 	}
 	return append([]byte{byte(len(idBytes))}, idBytes...), nil
 }
+
+// compactSize is the length prefix of strings
+func compactSize(size int) []byte {
+	if size < 0xfd {
+		return []byte{byte(size)}
+	}
+	if size <= 0xffff {
+		return []byte{0xfd, byte(size), byte(size >> 8)}
+	}
+	return []byte{0xfe, byte(size), byte(size >> 8), byte(size >> 16), byte(size >> 24)}
+}
-- 
2.43.0


From 957542f0bb13f38a0f3af310ab638c024ebdc74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:11 +0000
Subject: [PATCH 124/132] fix: waykichainTransaction crashed on short
 transactions and malformed keys

---
 waykichainTransaction/transaction.go | 9 ++++++++-
 waykichainTransaction/txStruct.go    | 4 ++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/waykichainTransaction/transaction.go b/waykichainTransaction/transaction.go
index 427e613..988379c 100644
--- a/waykichainTransaction/transaction.go
+++ b/waykichainTransaction/transaction.go
@@ -63,7 +63,14 @@ func VerifyAndCombineRawTransaction(emptyTrans string, sigPub SigPub) (bool, str
 	if err != nil {
 		return false, ""
 	}
-	pubkey := owcrypt.PointDecompress(sigPub.PublicKey, owcrypt.ECC_CURVE_SECP256K1)[1:]
+	if len(sigPub.PublicKey) != 33 {
+		return false, ""
+	}
+	pubkey := owcrypt.PointDecompress(sigPub.PublicKey, owcrypt.ECC_CURVE_SECP256K1)
+	if len(pubkey) != 65 {
+		return false, ""
+	}
+	pubkey = pubkey[1:]
 
 	if owcrypt.SUCCESS != owcrypt.Verify(pubkey, nil, hash, sigPub.Signature, owcrypt.ECC_CURVE_SECP256K1) {
 		return false, ""
diff --git a/waykichainTransaction/txStruct.go b/waykichainTransaction/txStruct.go
index 1520c83..dd03f8d 100644
--- a/waykichainTransaction/txStruct.go
+++ b/waykichainTransaction/txStruct.go
@@ -308,6 +308,10 @@ func getHashFromEmptyRawTrans(emptyTrans string) ([]byte, error) {
 		return nil, errors.New("Invalid transaction hex data!")
 	}
 
+	if len(txBytes) < 2 {
+		return nil, errors.New("Invalid transaction hex data!")
+	}
+
 	if (txBytes[0] != TxType_COMMON && txBytes[0] != TxType_REGACCT && txBytes[0] != TxType_CONTRACT && txBytes[0] != TxType_UcoinTransfer) || txBytes[1] != byte(Version) {
 		return nil, errors.New("Invalid transaction hex data!")
 	}
-- 
2.43.0


From 96a42eceec76eccfdf84c60c4ece4e516eed1f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:11 +0000
Subject: [PATCH 125/132] fix: bigbangTransaction crashed on an empty address

---
 bigbangTransaction/address.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigbangTransaction/address.go b/bigbangTransaction/address.go
index 680ab08..0c1e8c1 100644
--- a/bigbangTransaction/address.go
+++ b/bigbangTransaction/address.go
@@ -6,7 +6,7 @@ import (
 )
 
 func addressDecode(address string) ([]byte, error) {
-	if address[:1] != pubkeyPrefix {
+	if len(address) == 0 || address[:1] != pubkeyPrefix {
 		return nil, errors.New("Invalid address, only public key address supported!")
 	}
 
-- 
2.43.0


From 82b45e503b4a678ef290aec7cd058e3069481795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:11 +0000
Subject: [PATCH 126/132] fix: bigbangTransaction accepted anchors of any
 length, split addresses and cut the length of long lists and data

---
 bigbangTransaction/address.go  | 2 +-
 bigbangTransaction/txStruct.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/bigbangTransaction/address.go b/bigbangTransaction/address.go
index 0c1e8c1..07ab9c7 100644
--- a/bigbangTransaction/address.go
+++ b/bigbangTransaction/address.go
@@ -12,7 +12,7 @@ func addressDecode(address string) ([]byte, error) {
 
 	pubkey, err := base32.NewEncoding(alphaBet).DecodeString(address[1:])
 
-	if err != nil || len(pubkey) != 32 + 3 {
+	if err != nil || len(pubkey) != 32 + 3 || base32.NewEncoding(alphaBet).EncodeToString(pubkey) != address[1:] {
 		return nil, errors.New("Invalid address!")
 	}
 
diff --git a/bigbangTransaction/txStruct.go b/bigbangTransaction/txStruct.go
index 539c1c6..a262403 100644
--- a/bigbangTransaction/txStruct.go
+++ b/bigbangTransaction/txStruct.go
@@ -28,7 +28,7 @@ func NewTxStruct(version, txtype uint16, timestamp, lockUntil uint32, anchor str
 	tx.LockUntil = uint32ToLittleEndianBytes(lockUntil)
 
 	anchorBytes, err := reverseHexToBytes(anchor)
-	if err != nil {
+	if err != nil || len(anchorBytes) != 32 {
 		return nil, errors.New("Invalid anchor string!")
 	}
 	tx.Anchor = anchorBytes
@@ -37,6 +37,11 @@ func NewTxStruct(version, txtype uint16, timestamp, lockUntil uint32, anchor str
 		return nil, errors.New("Miss input!")
 	}
 
+	// longer lists and data need a longer length prefix, which is not supported yet
+	if len(inputs) > 252 || len(data) > 252 {
+		return nil, errors.New("Too many inputs or too much data!")
+	}
+
 	for _, in := range inputs {
 		input, err := NewTxIn(in.TxID, in.Vout)
 		if err != nil {
-- 
2.43.0


From 0816854943f81dcb1091fcd7c9531b664cbfad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:41 +0000
Subject: [PATCH 127/132] fix: binancechainTransaction paid another amount than
 asked above 2^53

---
 binancechainTransaction/msg-send.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/binancechainTransaction/msg-send.go b/binancechainTransaction/msg-send.go
index ce9a0be..3efcf61 100644
--- a/binancechainTransaction/msg-send.go
+++ b/binancechainTransaction/msg-send.go
@@ -5,6 +5,7 @@ import (
 	ctypes "github.com/binance-chain/go-sdk/common/types"
 	"github.com/binance-chain/go-sdk/types/msg"
 	"github.com/pkg/errors"
+	"strconv"
 )
 
 func CreateSendMsg(fromAddress, toAddress, denom string, amount int64) (*msg.SendMsg, error) {
@@ -30,6 +31,11 @@ func CreateSendMsg(fromAddress, toAddress, denom string, amount int64) (*msg.Sen
 		return nil, errors.New("Invalid amount!")
 	}
 
+	// the text to sign is sorted through float64: an amount it cannot hold would become another one
+	if strconv.FormatFloat(float64(amount), 'f', -1, 64) != strconv.FormatInt(amount, 10) {
+		return nil, errors.New("Amount cannot be represented in the transaction!")
+	}
+
 	coin := ctypes.Coin{
 		Denom:denom,
 		Amount:amount,
-- 
2.43.0


From ef8a206b5a377b5bcb0d04ccfba11ce6415b16f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:41 +0000
Subject: [PATCH 128/132] fix: witness addresses whose program is neither a key
 hash nor a script hash were paid to

---
 btcLikeTxDriver/txOut.go  | 2 +-
 btcTransaction/txOut.go   | 2 +-
 cxcTransaction/txAsset.go | 2 +-
 cxcTransaction/txOut.go   | 2 +-
 hcTransaction/txOut.go    | 2 +-
 omniTransaction/txOut.go  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/btcLikeTxDriver/txOut.go b/btcLikeTxDriver/txOut.go
index 277f129..f0c04ee 100644
--- a/btcLikeTxDriver/txOut.go
+++ b/btcLikeTxDriver/txOut.go
@@ -18,7 +18,7 @@ func newTxOutForEmptyTrans(vout []Vout) ([]TxOut, error) {
 
 		if strings.Index(v.Address, Bech32Prefix) == 0 {
 			redeem, err := Bech32Decode(v.Address)
-			if err != nil {
+			if err != nil || (len(redeem) != 0x14 && len(redeem) != 0x20) {
 				return nil, errors.New("Invalid bech32 type address!")
 			}
 
diff --git a/btcTransaction/txOut.go b/btcTransaction/txOut.go
index 7cacc1d..5c3d0f0 100644
--- a/btcTransaction/txOut.go
+++ b/btcTransaction/txOut.go
@@ -29,7 +29,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 
 		if prefixStr != "" && strings.Index(v.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(v.Address)
-			if err == nil {
+			if err == nil && (len(redeem) == 0x14 || len(redeem) == 0x20) {
 				redeem = append([]byte{byte(len(redeem))}, redeem...)
 				redeem = append([]byte{0x00}, redeem...)
 
diff --git a/cxcTransaction/txAsset.go b/cxcTransaction/txAsset.go
index 3b537d2..903f813 100644
--- a/cxcTransaction/txAsset.go
+++ b/cxcTransaction/txAsset.go
@@ -32,7 +32,7 @@ func getTransferAssetWithPayload(tos []AssetTransfer, addressPrefix AddressPrefi
 	for _, to := range tos {
 		if prefixStr != "" && strings.Index(to.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(to.Address)
-			if err == nil {
+			if err == nil && (len(redeem) == 0x14 || len(redeem) == 0x20) {
 				redeem = append([]byte{byte(len(redeem))}, redeem...)
 				redeem = append([]byte{0x00}, redeem...)
 				payload := getTransferPayload(to)
diff --git a/cxcTransaction/txOut.go b/cxcTransaction/txOut.go
index 69add75..22358c4 100644
--- a/cxcTransaction/txOut.go
+++ b/cxcTransaction/txOut.go
@@ -27,7 +27,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 
 		if prefixStr != "" && strings.Index(v.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(v.Address)
-			if err == nil {
+			if err == nil && (len(redeem) == 0x14 || len(redeem) == 0x20) {
 				redeem = append([]byte{byte(len(redeem))}, redeem...)
 				redeem = append([]byte{0x00}, redeem...)
 
diff --git a/hcTransaction/txOut.go b/hcTransaction/txOut.go
index 0dfc0df..1902ca2 100644
--- a/hcTransaction/txOut.go
+++ b/hcTransaction/txOut.go
@@ -27,7 +27,7 @@ func newTxOutForEmptyTrans(vout []Vout, addressPrefix AddressPrefix) ([]TxOut, e
 
 		if prefixStr != "" && strings.Index(v.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(v.Address)
-			if err == nil {
+			if err == nil && (len(redeem) == 0x14 || len(redeem) == 0x20) {
 				redeem = append([]byte{byte(len(redeem))}, redeem...)
 				redeem = append([]byte{0x00}, redeem...)
 
diff --git a/omniTransaction/txOut.go b/omniTransaction/txOut.go
index dd4e5fb..74bed74 100644
--- a/omniTransaction/txOut.go
+++ b/omniTransaction/txOut.go
@@ -27,7 +27,7 @@ func newTxOutForEmptyTrans(vout []Vout, omniDetail OmniStruct, addressPrefix Add
 
 		if prefixStr != "" && strings.Index(v.Address, prefixStr+"1") == 0 {
 			redeem, err := Bech32Decode(v.Address)
-			if err == nil {
+			if err == nil && (len(redeem) == 0x14 || len(redeem) == 0x20) {
 				redeem = append([]byte{byte(len(redeem))}, redeem...)
 				redeem = append([]byte{0x00}, redeem...)
 
-- 
2.43.0


From bbc5381b936bae7c108b4216095865ed3d491bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:00 +0000
Subject: [PATCH 129/132] fix: btcLikeTxDriver handed out digests for a redeem
 script that is not the one of the lock script

---
 btcLikeTxDriver/txStruct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/btcLikeTxDriver/txStruct.go b/btcLikeTxDriver/txStruct.go
index f938f12..cf64f39 100644
--- a/btcLikeTxDriver/txStruct.go
+++ b/btcLikeTxDriver/txStruct.go
@@ -1,6 +1,7 @@
 package btcLikeTxDriver
 
 import (
+	"bytes"
 	"encoding/hex"
 	"errors"
 
@@ -416,6 +417,8 @@ func (t Transaction) getHashesForSig(unlockData []TxUnlock) ([][]byte, error) {
 		if scriptType == TypeP2SH || scriptType == TypeBech32 {
 			if scriptType == TypeBech32 {
 				unlockData[i].RedeemScript = unlockData[i].LockScript
+			} else if redeem, err := hex.DecodeString(unlockData[i].RedeemScript); err != nil || (!bytes.Equal(owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22]) && !bytes.Equal(owcrypt.Hash(calcRedeemHash(redeem)[1:], 0, owcrypt.HASH_ALG_HASH160), lockBytes[2:22])) {
+				return nil, errors.New("The redeem script does not match the lock script!")
 			}
 			sigBytes, err = t.calcSegwitBytesForSig(unlockData[i], t.Vins[i].TxID, t.Vins[i].Vout, t.Vins[i].Sequence)
 			if err != nil {
-- 
2.43.0


From 848eda1dc423597d7f1df7d6b148b9c31b24c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:17 +0000
Subject: [PATCH 130/132] fix: EncodeCheck wrote behind the end of the caller's
 prefix slice (elastos, fiii, hypercash, vollar, waykichain)

---
 elastosTransaction/base58.go    | 2 +-
 fiiiTransaction/base58.go       | 2 +-
 hypercashTransaction/base58.go  | 2 +-
 vollarTransaction/base58.go     | 2 +-
 waykichainTransaction/base58.go | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/elastosTransaction/base58.go b/elastosTransaction/base58.go
index 8c6be00..75654b9 100644
--- a/elastosTransaction/base58.go
+++ b/elastosTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/fiiiTransaction/base58.go b/fiiiTransaction/base58.go
index bade376..d927e46 100644
--- a/fiiiTransaction/base58.go
+++ b/fiiiTransaction/base58.go
@@ -179,7 +179,7 @@ func DecodeCheck(address string, prefix []byte) ([]byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/hypercashTransaction/base58.go b/hypercashTransaction/base58.go
index 57dd70c..45a9429 100644
--- a/hypercashTransaction/base58.go
+++ b/hypercashTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(owcrypt.Hash(data, 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/vollarTransaction/base58.go b/vollarTransaction/base58.go
index 4280825..839edbf 100644
--- a/vollarTransaction/base58.go
+++ b/vollarTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
diff --git a/waykichainTransaction/base58.go b/waykichainTransaction/base58.go
index 0ebabf0..533accd 100644
--- a/waykichainTransaction/base58.go
+++ b/waykichainTransaction/base58.go
@@ -170,7 +170,7 @@ func DecodeCheck(address string) ([]byte, []byte, error) {
 }
 
 func EncodeCheck(prefix []byte, hash []byte) string {
-	data := append(prefix, hash...)
+	data := append(append([]byte{}, prefix...), hash...)
 	checksum := owcrypt.Hash(data, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
 	data = append(data, checksum...)
 	return Encode(data, BitcoinAlphabet)
-- 
2.43.0


From d107313d202a9b7222c78e4118f71e3c146bd3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:17 +0000
Subject: [PATCH 131/132] fix: bytom Bech32Encode wrote behind the end of the
 caller's data slice

---
 bytomTransaction/bech32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytomTransaction/bech32.go b/bytomTransaction/bech32.go
index eb15aaf..da51dfd 100644
--- a/bytomTransaction/bech32.go
+++ b/bytomTransaction/bech32.go
@@ -83,7 +83,7 @@ func Bech32Decode(bech string) (string, []byte, error) {
 func Bech32Encode(hrp string, data []byte) (string, error) {
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
-	combined := append(data, checksum...)
+	combined := append(append([]byte{}, data...), checksum...)
 
 	// The resulting bech32 string is the concatenation of the hrp, the
 	// separator 1, data and checksum. Everything after the separator is
-- 
2.43.0


From cb0d1c379c1f4f6f95f170e5d054c9a02017ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:25 +0000
Subject: [PATCH 132/132] fix: polkadot BytesToCompactBytes overwrote its
 argument

---
 polkadotTransaction/codec.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/polkadotTransaction/codec.go b/polkadotTransaction/codec.go
index 163fb68..7ed0720 100644
--- a/polkadotTransaction/codec.go
+++ b/polkadotTransaction/codec.go
@@ -67,6 +67,7 @@ func BytesToCompactBytes(bytes []byte) (res []byte) {
 			mode = twoByteMode
 		}
 
+		bytes = append([]byte{}, bytes...)
 		var nextRepl byte
 		for i := range bytes {
 			repl := bytes[i] & 192
-- 
2.43.0

