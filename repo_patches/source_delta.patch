From 16ece24aa39a92164dee54b4fcd65ea6ebfaa0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 01/70] fix: from/_UTF-8: add, not or, the supplementary plane
 base of CESU surrogate pairs

---
 modules/from/_UTF-8.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 884ee9a..3088b77 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -90,8 +90,8 @@ void cbdestroy(struct bsdconv_instance *ins){
 		if(t->cesu){	\
 			if(t->lead_surrogate.ucs4){	\
 				uint32_t cp = 0x10000;	\
-				cp |= ((be32toh(t->lead_surrogate.ucs4) - 0xD800) << 10) & bb11111111110000000000;	\
-				cp |= (ucs - 0xDC00) & bb1111111111;	\
+				cp += ((be32toh(t->lead_surrogate.ucs4) - 0xD800) << 10) & bb11111111110000000000;	\
+				cp += (ucs - 0xDC00) & bb1111111111;	\
 				t->ucs.ucs4 = htobe32(cp);	\
 				PASS(t->ucs);	\
 				t->lead_surrogate.ucs4 = 0;	\
-- 
2.43.0


From 781545f197285a1e6d9a1f5e520b647cd0245dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 02/70] fix: from/_UTF-8: reject values above U+10FFFF unless
 SUPER is given

---
 modules/from/_UTF-8.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 3088b77..36e5111 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -64,6 +64,9 @@ void cbdestroy(struct bsdconv_instance *ins){
 	this_phase->state.status=NEXTPHASE;	\
 	t->status = 0;	\
 	uint32_t ucs = be32toh(t->ucs.ucs4);	\
+	if(!t->super && ucs > 0x10FFFF){	\
+		DEADEND();	\
+	}	\
 	if(ucs >= 0xD800 && ucs <= 0xDBFF){	\
 		if(t->cesu){	\
 			if(t->lead_surrogate.ucs4){	\
-- 
2.43.0


From c41eefdf5af037e7d3752ebbb786922ee075199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 03/70] fix: from/UTF-16*, from/UTF-32*: decode U+0000 to 0100
 instead of an empty datum

---
 modules/from/UTF-16BE.c | 2 +-
 modules/from/UTF-16LE.c | 2 +-
 modules/from/UTF-32BE.c | 2 +-
 modules/from/UTF-32LE.c | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/from/UTF-16BE.c b/modules/from/UTF-16BE.c
index 6e77e22..84f8a0e 100644
--- a/modules/from/UTF-16BE.c
+++ b/modules/from/UTF-16BE.c
@@ -47,7 +47,7 @@ void cbconv(struct bsdconv_instance *ins){
 					continue;
 				}else{
 					t->status=0;
-					for(i=0;i<2;++i){
+					for(i=0;i<1 /* instead of 2, to map NUL to 0100 */;++i){
 						if(t->buf[i]) break;
 					}
 					l=(2-i)+1;
diff --git a/modules/from/UTF-16LE.c b/modules/from/UTF-16LE.c
index 7bef7da..4c547a9 100644
--- a/modules/from/UTF-16LE.c
+++ b/modules/from/UTF-16LE.c
@@ -46,7 +46,7 @@ void cbconv(struct bsdconv_instance *ins){
 					continue;
 				}else{
 					t->status=0;
-					for(i=0;i<2;++i){
+					for(i=0;i<1 /* instead of 2, to map NUL to 0100 */;++i){
 						if(t->buf[i]) break;
 					}
 					l=(2-i)+1;
diff --git a/modules/from/UTF-32BE.c b/modules/from/UTF-32BE.c
index 3c30195..610bcfc 100644
--- a/modules/from/UTF-32BE.c
+++ b/modules/from/UTF-32BE.c
@@ -51,7 +51,7 @@ void cbconv(struct bsdconv_instance *ins){
 			case 3:
 				t->buf[3]=d;
 				t->status=0;
-				for(i=0;i<4;++i){
+				for(i=0;i<3 /* instead of 4, to map NUL to 0100 */;++i){
 					if(t->buf[i]) break;
 				}
 				l=(4-i)+1;
diff --git a/modules/from/UTF-32LE.c b/modules/from/UTF-32LE.c
index b2758ba..99fa6b9 100644
--- a/modules/from/UTF-32LE.c
+++ b/modules/from/UTF-32LE.c
@@ -51,7 +51,7 @@ void cbconv(struct bsdconv_instance *ins){
 			case 3:
 				t->buf[0]=d;
 				t->status=0;
-				for(i=0;i<4;++i){
+				for(i=0;i<3 /* instead of 4, to map NUL to 0100 */;++i){
 					if(t->buf[i]) break;
 				}
 				l=(4-i)+1;
-- 
2.43.0


From 4f64c15d74870b0dd4fa690f2ad3f202231ffaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 04/70] fix: from/UTF-16BE: set the flags of a datum decoded
 from a surrogate pair

---
 modules/from/UTF-16BE.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/from/UTF-16BE.c b/modules/from/UTF-16BE.c
index 84f8a0e..d4da178 100644
--- a/modules/from/UTF-16BE.c
+++ b/modules/from/UTF-16BE.c
@@ -87,6 +87,7 @@ void cbconv(struct bsdconv_instance *ins){
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
 					this_phase->data_tail->len=l;
+					this_phase->data_tail->flags=F_FREE;
 					this_phase->data_tail->data=malloc(l);
 					CP(this_phase->data_tail->data)[0]=0x01;
 					memcpy(CP(this_phase->data_tail->data)+1, &buf[i], l-1);
-- 
2.43.0


From f7c38f536bcf34ad15e06c24733d53908da6598a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:04 +0000
Subject: [PATCH 05/70] fix: from/ASCII-NUMERIC-HTML-ENTITY: decode &#0; to
 0100 instead of an empty datum

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index b4527b0..70dabe7 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -50,7 +50,7 @@ void cbconv(struct bsdconv_instance *ins){
 			//put data
 			t->buf.i=htobe32(t->buf.i);
 			for(i=0;i<4;i++){
-				if(t->buf.c[i] || j)
+				if(t->buf.c[i] || j || i==3 /* map NUL to 0100 */)
 					ob[j++]=t->buf.c[i];
 			}
 			DATA_MALLOC(ins, this_phase->data_tail->next);
-- 
2.43.0


From 33fb175aef097af8d288c6029c72bc0b5791e828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 06/70] fix: from/ASCII-NUMERIC-HTML-ENTITY: reject &#x; which
 has no digit

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index 70dabe7..9b1e218 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -46,7 +46,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
-		if(d==';' && t->status){
+		if(d==';' && t->status && t->status!=1000 /* no digit yet */){
 			//put data
 			t->buf.i=htobe32(t->buf.i);
 			for(i=0;i<4;i++){
-- 
2.43.0


From 1ec34091ea5bd16b74c6757de65e183772f587c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 07/70] fix: from/ASCII-NUMERIC-HTML-ENTITY: reject a number
 that does not fit instead of wrapping around

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index 9b1e218..5e5a35e 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -68,6 +68,7 @@ void cbconv(struct bsdconv_instance *ins){
 		if(t->status){
 			++t->status;
 			if(t->tbl[(unsigned char)d]==-1) DEADEND();
+			if(t->buf.i > (UINT32_MAX - t->tbl[(unsigned char)d]) / t->b) DEADEND();
 			t->buf.i*=t->b;
 			t->buf.i+=t->tbl[(unsigned char)d];
 		}else{
-- 
2.43.0


From 9d9e77b16b95b4658c916c80cd000e6d9d855005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 08/70] fix: from/ESCAPE: the octal limit is 0377, not 377

---
 modules/from/ESCAPE.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/ESCAPE.c b/modules/from/ESCAPE.c
index fa5b8d2..0c80417 100644
--- a/modules/from/ESCAPE.c
+++ b/modules/from/ESCAPE.c
@@ -126,7 +126,7 @@ void cbconv(struct bsdconv_instance *ins){
 					i=t->buf[0];
 					i*=8;
 					i+=oct[(unsigned char)d];
-					if(i>377)
+					if(i>0377)
 						DEADEND();
 					t->buf[0]=i;
 					DATA_MALLOC(ins, this_phase->data_tail->next);
-- 
2.43.0


From d1a0f9cd0ec057907fd6e707fd93258672011b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 09/70] fix: from/ESCAPE: %u0000 read past the buffer; decode
 it to 0100

---
 modules/from/ESCAPE.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/ESCAPE.c b/modules/from/ESCAPE.c
index 0c80417..6b5c569 100644
--- a/modules/from/ESCAPE.c
+++ b/modules/from/ESCAPE.c
@@ -177,7 +177,7 @@ void cbconv(struct bsdconv_instance *ins){
 					i=0;
 					t->buf[1]*=16;
 					t->buf[1]+=hex[(unsigned char)d];
-					while(t->buf[i]==0)++i;
+					while(i<1 /* instead of 2, to map NUL to 0100 */ && t->buf[i]==0)++i;
 					DATA_MALLOC(ins, this_phase->data_tail->next);
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
-- 
2.43.0


From 2e490d0166d38511e08527020bdddde8f524db9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 10/70] fix: from/CP950-UDA: reject bytes that are not Big5
 trail bytes

---
 modules/from/CP950-UDA.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/modules/from/CP950-UDA.c b/modules/from/CP950-UDA.c
index fcc4f89..51c0b66 100644
--- a/modules/from/CP950-UDA.c
+++ b/modules/from/CP950-UDA.c
@@ -60,13 +60,21 @@ void cbconv(struct bsdconv_instance *ins){
 	}else{
 		uint32_t b = (r->h<<8)|d;
 		if(
-			(b>=0xFA40 && b<=0xFEFE)
-			||
-			(b>=0x8E40 && b<=0xA0FE)
-			||
-			(b>=0x8140 && b<=0x8DFE)
-			||
-			(b>=0xC6A1 && b<=0xC8FE)
+			(
+				(d>=0x40 && d<=0x7E)
+				||
+				(d>=0xA1 && d<=0xFE)
+			)
+			&&
+			(
+				(b>=0xFA40 && b<=0xFEFE)
+				||
+				(b>=0x8E40 && b<=0xA0FE)
+				||
+				(b>=0x8140 && b<=0x8DFE)
+				||
+				(b>=0xC6A1 && b<=0xC8FE)
+			)
 		){
 			uint32_t u = r->x + (157 * (r->h - r->y)) + (d<0x80?d-0x40:d-0x62);
 			unsigned char *c;
-- 
2.43.0


From ffd6068aea91259e23989995583e6ba8b7082330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 11/70] fix: from/CP950-UDA: forget a pending lead byte on
 initialization

---
 modules/from/CP950-UDA.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/from/CP950-UDA.c b/modules/from/CP950-UDA.c
index 51c0b66..08149e3 100644
--- a/modules/from/CP950-UDA.c
+++ b/modules/from/CP950-UDA.c
@@ -17,6 +17,11 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r = THIS_CODEC(ins)->priv;
+	r->h = 0;
+}
+
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r = THIS_CODEC(ins)->priv;
 	free(r);
-- 
2.43.0


From 24f28f57316cd0214b1aa6306d92486df0c25b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 12/70] fix: from/_GB18030: reject bytes out of the value range
 of their position

---
 modules/from/_GB18030.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/from/_GB18030.c b/modules/from/_GB18030.c
index 5ad6a57..4953ff7 100644
--- a/modules/from/_GB18030.c
+++ b/modules/from/_GB18030.c
@@ -91,6 +91,8 @@ void cbconv(struct bsdconv_instance *ins){
 					t->status=2;
 					goto next;
 				}
+				if(d<0x30 || d>0x39)
+					DEADEND();
 				t->ucs+=d;
 				t->ucs*=126;
 				t->status=2;
@@ -102,6 +104,8 @@ void cbconv(struct bsdconv_instance *ins){
 					t->status=3;
 					goto next;
 				}
+				if(d<0x81 || d>0xFE)
+					DEADEND();
 				t->ucs+=d;
 				t->ucs*=10;
 				t->status=3;
@@ -112,6 +116,8 @@ void cbconv(struct bsdconv_instance *ins){
 					t->status=0;
 					goto next;
 				}
+				if(d<0x30 || d>0x39)
+					DEADEND();
 				t->ucs+=d;
 				t->status=0;
 				if (t->ucs < gb18030_table[0].beg || t->ucs > gb18030_table[max].end){
-- 
2.43.0


From b98a7ba361cfadca167c639a773d17bacc372954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 13/70] fix: to/UTF-16*: refuse values above U+10FFFF

---
 modules/to/UTF-16BE.c | 6 +++++-
 modules/to/UTF-16LE.c | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/modules/to/UTF-16BE.c b/modules/to/UTF-16BE.c
index 8722088..91301ac 100644
--- a/modules/to/UTF-16BE.c
+++ b/modules/to/UTF-16BE.c
@@ -10,7 +10,11 @@ void cbconv(struct bsdconv_instance *ins){
 	data=this_phase->curr->data;
 
 	data+=1;
-	if(this_phase->curr->len > 3){
+	if(this_phase->curr->len > 4 || (this_phase->curr->len == 4 && (*UCP(data) < 0x01 || *UCP(data) > 0x10))){
+		/* not representable in UTF-16 */
+		this_phase->state.status=DEADEND;
+		return;
+	}else if(this_phase->curr->len > 3){
 		this_phase->state.status=NEXTPHASE;
 
 		DATA_MALLOC(ins, this_phase->data_tail->next);
diff --git a/modules/to/UTF-16LE.c b/modules/to/UTF-16LE.c
index 09f3e17..59e5087 100644
--- a/modules/to/UTF-16LE.c
+++ b/modules/to/UTF-16LE.c
@@ -12,7 +12,11 @@ void cbconv(struct bsdconv_instance *ins){
 	data=this_phase->curr->data;
 
 	data+=1;
-	if(this_phase->curr->len > 3){
+	if(this_phase->curr->len > 4 || (this_phase->curr->len == 4 && (*UCP(data) < 0x01 || *UCP(data) > 0x10))){
+		/* not representable in UTF-16 */
+		this_phase->state.status=DEADEND;
+		return;
+	}else if(this_phase->curr->len > 3){
 		this_phase->state.status=NEXTPHASE;
 
 		DATA_MALLOC(ins, this_phase->data_tail->next);
-- 
2.43.0


From 8e048044231b2f52525b940b8d720cae2c1d9516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 14/70] fix: to/UTF-32*: refuse data longer than 4 bytes
 instead of writing past the buffer

---
 modules/to/UTF-32BE.c | 4 ++++
 modules/to/UTF-32LE.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/modules/to/UTF-32BE.c b/modules/to/UTF-32BE.c
index 200a14d..8bef366 100644
--- a/modules/to/UTF-32BE.c
+++ b/modules/to/UTF-32BE.c
@@ -8,6 +8,10 @@ void cbconv(struct bsdconv_instance *ins){
 	unsigned int len, i;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
+	if(this_phase->curr->len > 5){
+		this_phase->state.status=DEADEND;
+		return;
+	}
 
 	this_phase->state.status=NEXTPHASE;
 	data+=1;
diff --git a/modules/to/UTF-32LE.c b/modules/to/UTF-32LE.c
index ab058ba..7e8da9b 100644
--- a/modules/to/UTF-32LE.c
+++ b/modules/to/UTF-32LE.c
@@ -10,6 +10,10 @@ void cbconv(struct bsdconv_instance *ins){
 	unsigned int len, i;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
+	if(this_phase->curr->len > 5){
+		this_phase->state.status=DEADEND;
+		return;
+	}
 
 	this_phase->state.status=NEXTPHASE;
 	data+=1;
-- 
2.43.0


From fcc3cdfc4eb4dfcaf2ffd8d2e4f9fa79e366d978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:09 +0000
Subject: [PATCH 15/70] fix: to/_GB18030: refuse data longer than 4 bytes
 instead of writing past the buffer

---
 modules/to/_GB18030.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/to/_GB18030.c b/modules/to/_GB18030.c
index 457d69b..da256ac 100644
--- a/modules/to/_GB18030.c
+++ b/modules/to/_GB18030.c
@@ -42,6 +42,11 @@ void cbconv(struct bsdconv_instance *ins){
 	data+=1;
 	len=this_phase->curr->len-1;
 
+	if(len > 4){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	codepoint.num=0;
 	for(i=0;(len-i)>0;++i){
 		codepoint.byte[3-i]=data[len-i-1];
-- 
2.43.0


From 12a763641214e771c20f1bb12a880c1006eaead9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 16/70] fix: bsdconv_hash_get: return the value of the key, not
 of the entry it is swapped with

---
 src/libbsdconv_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv_hash.c b/src/libbsdconv_hash.c
index b9d0a8d..4d90d5e 100644
--- a/src/libbsdconv_hash.c
+++ b/src/libbsdconv_hash.c
@@ -34,7 +34,7 @@ void *bsdconv_hash_get(struct bsdconv_instance *ins, const char *key){
 			p->ptr=ins->hash->ptr;
 			ins->hash->key=tk;
 			ins->hash->ptr=tp;
-			return p->ptr;
+			return tp;
 		}
 		p=p->next;
 	}
-- 
2.43.0


From 4f208993e5c75f93ad90121a1b549557524c54d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 17/70] fix: bsdconv_hash_del: keep the link to the entry that
 is examined

---
 src/libbsdconv_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv_hash.c b/src/libbsdconv_hash.c
index 4d90d5e..d50371d 100644
--- a/src/libbsdconv_hash.c
+++ b/src/libbsdconv_hash.c
@@ -70,7 +70,7 @@ void bsdconv_hash_del(struct bsdconv_instance *ins, const char *key){
 			free(p);
 			return;
 		}
-		p=p->next;
 		q=&p->next;
+		p=p->next;
 	}
 }
-- 
2.43.0


From ac35a6770d1432bbaa22523f719d45e9cea7097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:10 +0000
Subject: [PATCH 18/70] fix: str2datum, str2data: report an odd number of hex
 digits, which wrote past the buffer

---
 src/libbsdconv_util.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libbsdconv_util.c b/src/libbsdconv_util.c
index 94e3bca..ebb1705 100644
--- a/src/libbsdconv_util.c
+++ b/src/libbsdconv_util.c
@@ -26,6 +26,8 @@ int str2datum(const char *s, struct data_rt *d){
 	d->len=0;
 	if(!s)
 		return EINVAL;
+	if(strlen(s)%2)
+		return EINVAL;
 	d->data=malloc(strlen(s)/2);
 	d->flags=F_FREE;
 	d->next=NULL;
@@ -74,6 +76,12 @@ struct data_rt * str2data(const char *_s, int *r, struct bsdconv_instance *ins){
 
 	cur=s;
 	while((k=strsep(&cur, "."))!=NULL){
+		if(strlen(k)%2){
+			DATA_FREE(ins, ph.next);
+			*r=EINVAL;
+			free(s);
+			return NULL;
+		}
 		t->next=malloc(sizeof(struct data_rt));
 		t=t->next;
 		t->next=NULL;
-- 
2.43.0


From 72b28eeca565eac6f62e61c6f8a407ca5344faad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 19/70] fix: drop exactly one byte on a decoding error, even if
 the failed attempt began in an earlier chunk

---
 src/libbsdconv.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 4dab01c..91a6be1 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -667,10 +667,16 @@ void bsdconv(struct bsdconv_instance *ins){
 									RESET(ins->phase_index);
 									this_codec=THIS_CODEC(ins);
 
-									this_phase->bak=this_phase->curr;
-									LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+									/* drop exactly one byte, the first one that is not consumed yet */
+									while(prev_phase->data_head->next && this_phase->data_head->len >= prev_phase->data_head->next->len){
+										this_phase->bak=prev_phase->data_head->next->next;
+										LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+										this_phase->data_head->len=0;
+									}
+									if(prev_phase->data_head->next)
+										this_phase->data_head->len+=1;
 									this_phase->bak=this_phase->curr=prev_phase->data_head;
-									this_phase->i=this_phase->data_head->len=this_phase->data_head->len+1;
+									this_phase->i=this_phase->data_head->len;
 									continue;
 								}
 								break;
-- 
2.43.0


From f5b5759fe5fbdb180b799e05911e36361d80851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 20/70] fix: keep the tail of the input queue at its end when
 the input is a list of data

---
 src/libbsdconv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 91a6be1..a5cd51d 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -607,6 +607,8 @@ void bsdconv(struct bsdconv_instance *ins){
 		DATA_MALLOC(ins, ins->phase[0].data_tail->next);
 		ins->phase[0].data_tail=ins->phase[0].data_tail->next;
 		*(ins->phase[0].data_tail)=ins->input;
+		while(ins->phase[0].data_tail->next)
+			ins->phase[0].data_tail=ins->phase[0].data_tail->next;
 		ins->input.data=NULL;
 		ins->input.len=0;
 		ins->input.flags=0;
-- 
2.43.0


From bcd0f9cc1fad956490865b6cb6f3f9c8858ff804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 21/70] fix: on flush, let a decoder forget an incomplete
 sequence before its bytes are scanned again

---
 src/libbsdconv.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index a5cd51d..c859c0b 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -1012,7 +1012,11 @@ void bsdconv(struct bsdconv_instance *ins){
 				this_phase=THIS_PHASE(ins);
 				this_codec=THIS_CODEC(ins);
 				switch(this_phase->type){
-					case FROM:	goto from_deadend;
+					case FROM:
+						/* the codec is not going to see the end of what it is waiting for */
+						if((this_phase->flags & F_LOOPBACK) && !(this_phase->flags & F_MATCH) && this_codec->cbinit)
+							this_codec->cbinit(ins);
+						goto from_deadend;
 					case INTER:	goto inter_deadend;
 					case TO:	goto to_deadend;
 				}
-- 
2.43.0


From b55e820d289604a499a4c6a726616504aec31cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 22/70] fix: bsdconv_create: keep an alias' arguments until the
 conversion is packed again

---
 src/libbsdconv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index c859c0b..fadbae7 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -390,6 +390,7 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 	char *conversion=malloc(strlen(_conversion)+1);
 	int i, j;
 	char *c;
+	char *odesc;
 	const char *d;
 	char whitespace[256]={0};
 	whitespace['\r']=1;
@@ -428,16 +429,18 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 						return NULL;
 					}
 					c=bsdconv_solve_alias(ins->phase[i].type, ins->phase[i].codec[j].desc);
+					odesc=NULL;
 					if(c==NULL){
 						e=1;
 					}else{
 						if(strcmp(c, ins->phase[i].codec[j].desc)==0)
 							e=1;
-						free(ins->phase[i].codec[j].desc);
+						odesc=ins->phase[i].codec[j].desc;
 						ins->phase[i].codec[j].desc=c;
 					}
 					free(conversion);
 					conversion=bsdconv_pack(ins);
+					free(odesc); /* argv points into it */
 					for(i=1;i<=ins->phasen;++i){
 						for(j=0;j<=ins->phase[i].codecn;++j){
 							free(ins->phase[i].codec[j].desc);
-- 
2.43.0


From 3b49ae3522f6029bf4ab38ff38091162fa4a1e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 23/70] fix: from/BSDCONV: do not keep a pointer to data that
 was freed or handed over

---
 modules/from/BSDCONV.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/from/BSDCONV.c b/modules/from/BSDCONV.c
index efc8c03..a3e2e35 100644
--- a/modules/from/BSDCONV.c
+++ b/modules/from/BSDCONV.c
@@ -27,6 +27,7 @@ void cbinit(struct bsdconv_instance *ins){
 	t->data.len=0;
 	if(t->data.data)
 		free(t->data.data);
+	t->data.data=NULL;
 	t->data.next=NULL;
 	t->flag=F_CLEAR;
 }
@@ -43,6 +44,9 @@ void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	LISTCPY(ins, this_phase->data_tail, &t->data);
+	this_phase->data_tail->flags=F_FREE;
+	t->data.data=NULL;
+	t->flag=F_CLEAR;
 }
 
 void cbconv(struct bsdconv_instance *ins){
-- 
2.43.0


From ef22b69f536010fbd91afd8acf3920398a779df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 24/70] fix: from/_JIS: start in ASCII mode after
 initialization

---
 modules/from/_JIS.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 67ebb02..9d15248 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -44,6 +44,12 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r = THIS_CODEC(ins)->priv;
+	r->mode = MODE_ASCII;
+	r->state = 0;
+}
+
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r = THIS_CODEC(ins)->priv;
 	unloadcodec(&r->jis0201);
-- 
2.43.0


From f4c44d01f33bcdf2570702ff994a692f1326d825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:04 +0000
Subject: [PATCH 25/70] fix: from/_JIS: leave the escape state when an escape
 sequence is rejected

---
 modules/from/_JIS.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 9d15248..e8290d1 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -76,6 +76,7 @@ void cbconv(struct bsdconv_instance *ins){
 				default:
 					switch(r->mode){
 						case MODE_ASCII:
+							r->state = 0;
 							this_phase->state.status = DEADEND;
 							return;
 						case MODE_JIS0201:
@@ -112,6 +113,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = CONTINUE;
 						return;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
@@ -131,6 +133,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = NEXTPHASE;
 						return;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
@@ -159,6 +162,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = NEXTPHASE;
 						return;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
@@ -172,11 +176,13 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = NEXTPHASE;
 						break;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
 				break;
 			default:
+				r->state = 0;
 				this_phase->state.status = DEADEND;
 				return;
 	}
-- 
2.43.0


From c0110c8811fb7187d85c02d344560533074f2953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 26/70] fix: AMBIGUOUS-UNPAD: remove U+00A0 only, not any
 character whose value starts with A0

---
 modules/inter/AMBIGUOUS-UNPAD.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/inter/AMBIGUOUS-UNPAD.c b/modules/inter/AMBIGUOUS-UNPAD.c
index 1114ee5..e424674 100644
--- a/modules/inter/AMBIGUOUS-UNPAD.c
+++ b/modules/inter/AMBIGUOUS-UNPAD.c
@@ -46,7 +46,7 @@ void cbconv(struct bsdconv_instance *ins){
 	this_phase->state.status=NEXTPHASE;
 
 	if(this_phase->curr->len>1 && data[0]==0x1){
-		if(r->s==1 && data[1]==0xA0){
+		if(r->s==1 && this_phase->curr->len==2 && data[1]==0xA0){
 			r->s=0;
 			return;
 		}else{
-- 
2.43.0


From 1bc9df0eb98d19e21d679b5c4c294de28a25a58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 27/70] fix: AMBIGUOUS-UNPAD: remove U+00A0 only directly after
 an ambiguous character

---
 modules/inter/AMBIGUOUS-UNPAD.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/modules/inter/AMBIGUOUS-UNPAD.c b/modules/inter/AMBIGUOUS-UNPAD.c
index e424674..e5d8198 100644
--- a/modules/inter/AMBIGUOUS-UNPAD.c
+++ b/modules/inter/AMBIGUOUS-UNPAD.c
@@ -69,9 +69,7 @@ void cbconv(struct bsdconv_instance *ins){
 						break;
 					}
 			}
-			if(pad && r->dopad){
-				r->s=1;
-			}
+			r->s=(pad && r->dopad);
 		}
 		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
 		this_phase->data_tail=this_phase->data_tail->next;
-- 
2.43.0


From 3d62167542025b252df51a9952219be2c017721d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 28/70] fix: AMBIGUOUS-UNPAD: pass data that are not Unicode
 instead of dropping them

---
 modules/inter/AMBIGUOUS-UNPAD.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modules/inter/AMBIGUOUS-UNPAD.c b/modules/inter/AMBIGUOUS-UNPAD.c
index e5d8198..acb72f2 100644
--- a/modules/inter/AMBIGUOUS-UNPAD.c
+++ b/modules/inter/AMBIGUOUS-UNPAD.c
@@ -71,12 +71,13 @@ void cbconv(struct bsdconv_instance *ins){
 			}
 			r->s=(pad && r->dopad);
 		}
-		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
-		this_phase->data_tail=this_phase->data_tail->next;
-		this_phase->data_tail->next=NULL;
 	}else{
 		r->s=0;
 	}
 
+	this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
+	this_phase->data_tail=this_phase->data_tail->next;
+	this_phase->data_tail->next=NULL;
+
 	return;
 }
-- 
2.43.0


From 3fe1d5716d1c32fa4f2218b6dfaad45a4a8a9122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 29/70] fix: _NF-HANGUL-DECOMPOSITION: pass data that are not
 Unicode instead of dropping them

---
 modules/inter/_NF-HANGUL-DECOMPOSITION.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/modules/inter/_NF-HANGUL-DECOMPOSITION.c b/modules/inter/_NF-HANGUL-DECOMPOSITION.c
index d882516..c7c30f5 100644
--- a/modules/inter/_NF-HANGUL-DECOMPOSITION.c
+++ b/modules/inter/_NF-HANGUL-DECOMPOSITION.c
@@ -19,19 +19,21 @@ void cbconv(struct bsdconv_instance *ins){
 	int i;
 	uint32_t ucs=0;
 
+	int SIndex  = -1;
+
 	if(data[0]==0x1){
 		for(i=1;i<this_phase->curr->len;++i){
 			ucs<<=8;
 			ucs|=data[i];
 		}
-		int SIndex  = ucs - SBase;
-		if(SIndex >= 0 && SIndex < SCount){
-			decomposeHangul(ucs, ins);
-		}else{
-			this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
-			this_phase->data_tail=this_phase->data_tail->next;
-			this_phase->data_tail->next=NULL;
-		}
+		SIndex  = ucs - SBase;
+	}
+	if(SIndex >= 0 && SIndex < SCount){
+		decomposeHangul(ucs, ins);
+	}else{
+		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
+		this_phase->data_tail=this_phase->data_tail->next;
+		this_phase->data_tail->next=NULL;
 	}
 
 	this_phase->state.status=NEXTPHASE;
-- 
2.43.0


From 75099f9af65cda24d03d6268cef35b258346c940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 30/70] fix: _NF-ORDER: forget (and release) the characters
 being reordered on initialization and destruction

---
 modules/inter/_NF-ORDER.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/modules/inter/_NF-ORDER.c b/modules/inter/_NF-ORDER.c
index 0b0a120..d0008e8 100644
--- a/modules/inter/_NF-ORDER.c
+++ b/modules/inter/_NF-ORDER.c
@@ -26,6 +26,20 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r=THIS_CODEC(ins)->priv;
+
+	while(r->head->next){
+		struct ll_s *next=r->head->next;
+		struct data_rt *p=r->head->p;
+		DATUM_FREE(ins, p);
+		free(r->head);
+		r->head=next;
+	}
+	r->head=r->tail;
+	r->head->prev=NULL;
+}
+
 void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *r=THIS_CODEC(ins)->priv;
@@ -122,6 +136,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
+	cbinit(ins);
 	free(r->head);
 	free(r);
 }
-- 
2.43.0


From 4c0976d5f3a01aedbcb0490a35342b6b636ec290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 31/70] fix: _NFC: forget the starter on initialization, it was
 freed twice

---
 modules/inter/_NFC.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index 8d5370d..313d379 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -29,6 +29,7 @@ void cbinit(struct bsdconv_instance *ins){
 	struct data_rt *t;
 	if(r->starter){
 		DATUM_FREE(ins, r->starter);
+		r->starter=NULL;
 	}
 	while(r->pending_head->next){
 		t=r->pending_head->next->next;
-- 
2.43.0


From 06d36a74f112a2898cdb6fcacc5f68b74f6a0912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:40 +0000
Subject: [PATCH 32/70] fix: from/ASCII-NUMERIC-HTML-ENTITY: a digit count of
 1000 must not look like a number without digits

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index 5e5a35e..6d81e80 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -66,7 +66,7 @@ void cbconv(struct bsdconv_instance *ins){
 			return;
 		}
 		if(t->status){
-			++t->status;
+			t->status=1;
 			if(t->tbl[(unsigned char)d]==-1) DEADEND();
 			if(t->buf.i > (UINT32_MAX - t->tbl[(unsigned char)d]) / t->b) DEADEND();
 			t->buf.i*=t->b;
-- 
2.43.0


From 0c58d4c0a2e76e3d93d00d52f7a346fe515f2249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:49 +0000
Subject: [PATCH 33/70] fix: from/_GB18030: D9 four-byte sequences were decoded
 as if they began with D0

---
 modules/from/_GB18030.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/_GB18030.txt b/modules/from/_GB18030.txt
index 41077d3..7ad0866 100644
--- a/modules/from/_GB18030.txt
+++ b/modules/from/_GB18030.txt
@@ -23628,7 +23628,7 @@ D8FB	014F67
 D8FC	016538
 D8FD	014F5A
 D8FE	014F5D
-D9*	?D0
+D9*	?D9
 D940	018CAE
 D941	018CAF
 D942	018CB0
-- 
2.43.0


From 0bcc45fc721a50a092f94d76fddf0041a4565cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:48 +0000
Subject: [PATCH 34/70] fix: mktable: the case-insensitive pairs are A-Z with
 a-z, both ways, and stay inside the table

---
 src/bsdconv-mktable.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 6ad1cc3..8de4414 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -75,7 +75,7 @@ struct hash{
 };
 
 char table[256]={};
-char ci_table[256]={0};
+char ci_table[257]={0};
 
 uintptr_t offset=0;
 struct m_state_st *state_r, *state_t, holder;
@@ -178,9 +178,9 @@ int main(int argc, char *argv[]){
 	}
 
 	/* case insensitive table */
-	for(i=0;i<=26;++i){
+	for(i=0;i<26;++i){
 		ci_table['A'+i]='a'+i;
-		ci_table['a']='A'+i;
+		ci_table['a'+i]='A'+i;
 	}
 
 	if(argc!=3){
-- 
2.43.0


From 271e168186c0e218ba94b881fe54e542134b7e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:05 +0000
Subject: [PATCH 35/70] fix: mktable: an entry that replaces another one keeps
 the longer sequences listed under it

---
 src/bsdconv-mktable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 8de4414..f154768 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -408,6 +408,9 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 							state_t->level=todo_item->state->base[c]->level;
 							DPRINTF("%p SUBROUTINE -> MATCH: %p\n", todo_item->state->base[c], state_t);
 							todo_item->state->base[c]=state_t;
+						}else if(todo_item->state->base[c]->status==SUBMATCH || todo_item->state->base[c]->status==SUBMATCH_SUBROUTINE){
+							DPRINTF("%p %d -> SUBMATCH for %s\n", todo_item->state->base[c], todo_item->state->base[c]->status, ot);
+							todo_item->state->base[c]->status=SUBMATCH;
 						}else{
 							DPRINTF("%p %d -> MATCH for %s\n", todo_item->state->base[c], todo_item->state->base[c]->status, ot);
 							todo_item->state->base[c]->status=MATCH;
-- 
2.43.0


From 7c36abe25fce15438e7883c0e33e14080b532aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:33 +0000
Subject: [PATCH 36/70] fix: bsdconv_unpack: the list of phases was one element
 too short

---
 src/libbsdconv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index fadbae7..53170a0 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -315,7 +315,7 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 		if(*t==':' || *t=='|')++i;
 	}
 	ins->phasen=i;
-	char *phase_off[i+1];
+	char *phase_off[i+2]; /* one more for the terminating NULL */
 
 	ins->phase=malloc(sizeof(struct bsdconv_phase) * (i+1));
 
-- 
2.43.0


From b40ea361395143ce1edfde88f8c62ac07deca7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:32 +0000
Subject: [PATCH 37/70] fix: a datum that is longer than any listed prefix goes
 to the callback instead of being taken for the prefix

---
 src/libbsdconv.c | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 53170a0..cf6ce02 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -602,6 +602,7 @@ void bsdconv(struct bsdconv_instance *ins){
 	FILE *fp;
 	int fd;
 	unsigned char c;
+	offset_t loopback;
 	struct bsdconv_phase *prev_phase;
 	struct bsdconv_phase *this_phase;
 	struct bsdconv_codec *this_codec;
@@ -741,12 +742,18 @@ void bsdconv(struct bsdconv_instance *ins){
 			while(this_phase->curr->next){
 				this_phase->curr=this_phase->curr->next;
 				this_phase->state.status=NOMATCH;
+				loopback=this_phase->offset;
 				for(this_phase->i=0;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 					c=UCP(this_phase->curr->data)[this_phase->i];
 					offset_t next = get_offset(this_codec, &this_phase->state, c);
 					if(next){
 						this_phase->offset = next;
-					}else if(!(this_phase->flags & F_LOOPBACK)){
+					}else if(this_phase->flags & F_LOOPBACK){
+						/* nothing longer is listed: the datum is up to the callback, whatever follows in it */
+						this_phase->offset=loopback;
+						this_phase->state=read_state(this_codec, this_phase->offset);
+						break;
+					}else{
 						this_phase->offset=0;
 					}
 					this_phase->state=read_state(this_codec, this_phase->offset);
@@ -757,6 +764,7 @@ void bsdconv(struct bsdconv_instance *ins){
 						case SUBROUTINE:
 						case SUBMATCH_SUBROUTINE:
 							this_phase->flags |= F_LOOPBACK;
+							loopback=this_phase->offset;
 							break;
 					}
 				}
@@ -874,12 +882,18 @@ void bsdconv(struct bsdconv_instance *ins){
 			while(this_phase->curr->next){
 				this_phase->curr=this_phase->curr->next;
 				this_phase->state.status=NOMATCH;
+				loopback=this_phase->offset;
 				for(this_phase->i=0;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 					c=UCP(this_phase->curr->data)[this_phase->i];
 					offset_t next = get_offset(this_codec, &this_phase->state, c);
 					if(next){
 						this_phase->offset = next;
-					}else if(!(this_phase->flags & F_LOOPBACK)){
+					}else if(this_phase->flags & F_LOOPBACK){
+						/* nothing longer is listed: the datum is up to the callback, whatever follows in it */
+						this_phase->offset=loopback;
+						this_phase->state=read_state(this_codec, this_phase->offset);
+						break;
+					}else{
 						this_phase->offset=0;
 					}
 					this_phase->state=read_state(this_codec, this_phase->offset);
@@ -890,6 +904,7 @@ void bsdconv(struct bsdconv_instance *ins){
 						case SUBROUTINE:
 						case SUBMATCH_SUBROUTINE:
 							this_phase->flags |= F_LOOPBACK;
+							loopback=this_phase->offset;
 							break;
 					}
 				}
-- 
2.43.0


From 79c605b0fc1c2c9596edc6f13eb49d35b87b56ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:52 +0000
Subject: [PATCH 38/70] fix: from/_GB18030: start over after a character that
 was completed by the table

---
 modules/from/_GB18030.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/from/_GB18030.c b/modules/from/_GB18030.c
index 4953ff7..fd9b4ba 100644
--- a/modules/from/_GB18030.c
+++ b/modules/from/_GB18030.c
@@ -69,6 +69,10 @@ void cbconv(struct bsdconv_instance *ins){
 	int i;
 	ucs_t ucs;
 
+	/* first call for this character, the previous one may have been completed by the table */
+	if(!(this_phase->flags & F_LOOPBACK))
+		t->status=0;
+
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=UCP(this_phase->curr->data)[this_phase->i];
 		memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
-- 
2.43.0


From f875aa6e8076bf2c893be6611b8be38804e39988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:34 +0000
Subject: [PATCH 39/70] fix: from/EBCDIC: a byte that does not continue a
 listed pair does not belong to it

---
 modules/from/EBCDIC.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/from/EBCDIC.c b/modules/from/EBCDIC.c
index cb6dc62..35c652f 100644
--- a/modules/from/EBCDIC.c
+++ b/modules/from/EBCDIC.c
@@ -28,6 +28,12 @@ void cbconv(struct bsdconv_instance *ins){
 	struct data_st data;
 	unsigned char *c;
 
+	/* called for the first byte already, and the table does not list it with this second one */
+	if(this_phase->flags & F_LOOPBACK){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 	c=UCP(this_phase->codec[this_phase->index].data_z+de_offset(data.data));
 
-- 
2.43.0


From 4b5621f319d6f4addeebd6703928fabeefe45b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 40/70] fix: from/_GB18030: take one byte at a time, so that
 the four-byte sequences in the table are found

---
 modules/from/_GB18030.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/from/_GB18030.c b/modules/from/_GB18030.c
index fd9b4ba..bcbbc58 100644
--- a/modules/from/_GB18030.c
+++ b/modules/from/_GB18030.c
@@ -73,7 +73,7 @@ void cbconv(struct bsdconv_instance *ins){
 	if(!(this_phase->flags & F_LOOPBACK))
 		t->status=0;
 
-	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
+	{	/* one byte at a time, the table may list the character */
 		d=UCP(this_phase->curr->data)[this_phase->i];
 		memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 		c=UCP(this_phase->codec[this_phase->index].data_z+de_offset(data.data));
-- 
2.43.0


From d6501f6923504e847c0f029741d50d82d969ab02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 41/70] fix: from/_GB18030: the four-byte sequences 8235 90 ..
 8239 FE were not listed for the algorithm

---
 modules/from/_GB18030.txt | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/from/_GB18030.txt b/modules/from/_GB18030.txt
index 7ad0866..68adc63 100644
--- a/modules/from/_GB18030.txt
+++ b/modules/from/_GB18030.txt
@@ -6266,6 +6266,7 @@
 8234FE37	014D6D
 8234FE38	014D6E
 8234FE39	014D6F
+8235*		?8235
 82358130	014D70
 82358131	014D71
 82358132	014D72
@@ -6601,6 +6602,9 @@
 82FC	0150B8
 82FD	0150B9
 82FE	0150BC
+8237*		?8237
+8238*		?8238
+8239*		?8239
 83*	?83
 8336*		?8336
 8336C739	01E76C
-- 
2.43.0


From 59ff2a0c77ab8fe1747c361597b4eedbf83ae075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 42/70] fix: to/_GB18030: U+9FA6 .. U+FFFF were shadowed by
 U+009F .. U+00FF

---
 modules/to/_GB18030.txt | 97 +++++++++++++++++++++++++++++++++++++++++
 1 file changed, 97 insertions(+)

diff --git a/modules/to/_GB18030.txt b/modules/to/_GB18030.txt
index 7d7001b..fb48bcb 100644
--- a/modules/to/_GB18030.txt
+++ b/modules/to/_GB18030.txt
@@ -1,4 +1,101 @@
 01*	?
+019F*	?
+01A0*	?
+01A1*	?
+01A2*	?
+01A3*	?
+01A4*	?
+01A5*	?
+01A6*	?
+01A7*	?
+01A8*	?
+01A9*	?
+01AA*	?
+01AB*	?
+01AC*	?
+01AD*	?
+01AE*	?
+01AF*	?
+01B0*	?
+01B1*	?
+01B2*	?
+01B3*	?
+01B4*	?
+01B5*	?
+01B6*	?
+01B7*	?
+01B8*	?
+01B9*	?
+01BA*	?
+01BB*	?
+01BC*	?
+01BD*	?
+01BE*	?
+01BF*	?
+01C0*	?
+01C1*	?
+01C2*	?
+01C3*	?
+01C4*	?
+01C5*	?
+01C6*	?
+01C7*	?
+01C8*	?
+01C9*	?
+01CA*	?
+01CB*	?
+01CC*	?
+01CD*	?
+01CE*	?
+01CF*	?
+01D0*	?
+01D1*	?
+01D2*	?
+01D3*	?
+01D4*	?
+01D5*	?
+01D6*	?
+01D7*	?
+01D8*	?
+01D9*	?
+01DA*	?
+01DB*	?
+01DC*	?
+01DD*	?
+01DE*	?
+01DF*	?
+01E0*	?
+01E1*	?
+01E2*	?
+01E3*	?
+01E4*	?
+01E5*	?
+01E6*	?
+01E7*	?
+01E8*	?
+01E9*	?
+01EA*	?
+01EB*	?
+01EC*	?
+01ED*	?
+01EE*	?
+01EF*	?
+01F0*	?
+01F1*	?
+01F2*	?
+01F3*	?
+01F4*	?
+01F5*	?
+01F6*	?
+01F7*	?
+01F8*	?
+01F9*	?
+01FA*	?
+01FB*	?
+01FC*	?
+01FD*	?
+01FE*	?
+01FF*	?
 010100	81308B38
 010101	A8A1
 010102	81308B39
-- 
2.43.0


From 27beed889a741abeac522ab69ffb1d4e2c30f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:53 +0000
Subject: [PATCH 43/70] fix: output phase drops the whole looked-ahead run
 instead of one datum when nothing matches

---
 src/libbsdconv.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index cf6ce02..f46b009 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -943,7 +943,12 @@ void bsdconv(struct bsdconv_instance *ins){
 							RESET(ins->phase_index);
 							this_codec=THIS_CODEC(ins);
 
-							this_phase->bak=this_phase->curr->next;
+							/* give up the first datum only, those after it were merely looked ahead at */
+							this_phase->bak=prev_phase->data_head->next;
+							while(this_phase->bak && this_phase->bak->len==0)
+								this_phase->bak=this_phase->bak->next;
+							if(this_phase->bak)
+								this_phase->bak=this_phase->bak->next;
 							LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 							this_phase->bak=this_phase->curr=prev_phase->data_head;
 
-- 
2.43.0


From e9cfd8824618c486bc0f80638e84d6cc649504a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:53 +0000
Subject: [PATCH 44/70] fix: BIG5-DEFRAG leaks a list node for every datum it
 passes through

---
 modules/inter/BIG5-DEFRAG.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/modules/inter/BIG5-DEFRAG.c b/modules/inter/BIG5-DEFRAG.c
index 90c4454..fb37afb 100644
--- a/modules/inter/BIG5-DEFRAG.c
+++ b/modules/inter/BIG5-DEFRAG.c
@@ -37,7 +37,6 @@ void cbconv(struct bsdconv_instance *ins){
 			this_phase->state.status=SUBMATCH;
 			return;
 		}else{
-			DATA_MALLOC(ins, this_phase->data_tail->next);
 			this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
-- 
2.43.0


From 32735204345e84be2c1eef43038dadb51ca5d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:18 +0000
Subject: [PATCH 45/70] fix: size query counts the consumed part of the last
 queue's first input as output

---
 src/libbsdconv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index f46b009..80970c8 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -1091,7 +1091,7 @@ void bsdconv(struct bsdconv_instance *ins){
 				ins->output.len=i;
 			}else{
 				i=0;
-				data_ptr=last_phase->data_head;
+				data_ptr=last_phase->data_head->next;
 				while(data_ptr){
 					i+=data_ptr->len;
 					data_ptr=data_ptr->next;
-- 
2.43.0


From 6a55e06eaa1e5bdc3c01f48c86e0a095016c848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 46/70] fix: to/ASCII-HTML-UNICODE-IMG wrote past its fixed
 buffer for data longer than 25 bytes

---
 modules/to/ASCII-HTML-UNICODE-IMG.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/to/ASCII-HTML-UNICODE-IMG.c b/modules/to/ASCII-HTML-UNICODE-IMG.c
index 66751d8..9ff68ee 100644
--- a/modules/to/ASCII-HTML-UNICODE-IMG.c
+++ b/modules/to/ASCII-HTML-UNICODE-IMG.c
@@ -3,10 +3,12 @@
 #include <string.h>
 #include "../../src/bsdconv.h"
 
+#define HEAD "<img class=\"unicode_img\" src=\"http://www.unicode.org/cgi-bin/refglyph?24-"
+#define TAIL "\" />"
 #define TAILIZE(p) while(*p){ p++ ;}
 
 void cbconv(struct bsdconv_instance *ins){
-	char *data, *p, buf[128]={0};
+	char *data, *p, *buf;
 	unsigned int len, i;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
@@ -15,15 +17,14 @@ void cbconv(struct bsdconv_instance *ins){
 		return;
 	}
 	this_phase->state.status=NEXTPHASE;
-	p=buf;
-	i=*data;
 	data+=1;
 	len=this_phase->curr->len-1;
+	p=buf=malloc(sizeof(HEAD)+len*2+sizeof(TAIL));
 	DATA_MALLOC(ins, this_phase->data_tail->next);
 	this_phase->data_tail=this_phase->data_tail->next;
 	this_phase->data_tail->next=NULL;
 
-	sprintf(p,"<img class=\"unicode_img\" src=\"http://www.unicode.org/cgi-bin/refglyph?24-");
+	strcpy(p, HEAD);
 	TAILIZE(p);
 	if(0<len){
 		sprintf(p,"%X", (unsigned char)data[0]);
@@ -33,13 +34,12 @@ void cbconv(struct bsdconv_instance *ins){
 		sprintf(p,"%02X", (unsigned char)data[i]);
 	}
 	TAILIZE(p);
-	sprintf(p, "\" />");
+	strcpy(p, TAIL);
 	TAILIZE(p);
 	len=p-buf;
 	this_phase->data_tail->len=len;
 	this_phase->data_tail->flags=F_FREE;
-	this_phase->data_tail->data=malloc(len);
-	memcpy(this_phase->data_tail->data, buf, len);
+	this_phase->data_tail->data=buf;
 
 	return;
 }
-- 
2.43.0


From fdc2a11265198e69192d05f0cbfd879c98eb9da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 47/70] fix: to/ESCAPE dereferenced a null pointer when MODE or
 FOR had no value

---
 modules/to/ESCAPE.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/to/ESCAPE.c b/modules/to/ESCAPE.c
index ab6b147..a24bfcf 100644
--- a/modules/to/ESCAPE.c
+++ b/modules/to/ESCAPE.c
@@ -38,7 +38,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				free(r);
 				return e;
 			}
-		}else if(strcasecmp(arg->key, "MODE")==0){
+		}else if(strcasecmp(arg->key, "MODE")==0 && arg->ptr){
 			if(strcasecmp(arg->ptr, "HEX")==0 || strcasecmp(arg->ptr, "16")==0){
 				r->mode=16;
 			}else if(strcasecmp(arg->ptr, "DEC")==0 || strcasecmp(arg->ptr, "10")==0){
@@ -51,7 +51,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				free(r);
 				return EINVAL;
 			}
-		}else if(strcasecmp(arg->key, "FOR")==0){
+		}else if(strcasecmp(arg->key, "FOR")==0 && arg->ptr){
 			if(strcasecmp(arg->ptr, "UNICODE")==0 || strcasecmp(arg->ptr, "1")==0 || strcasecmp(arg->ptr, "01")==0){
 				r->filter=1;
 			}else if(strcasecmp(arg->ptr, "BYTE")==0 || strcasecmp(arg->ptr, "3")==0 || strcasecmp(arg->ptr, "03")==0){
-- 
2.43.0


From c357532e3e4177524cba603d6366b7033f770474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:38 +0000
Subject: [PATCH 48/70] fix: inter/PASS dereferenced a null pointer when LIMIT
 had no value

---
 modules/inter/PASS.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/inter/PASS.c b/modules/inter/PASS.c
index 9cf376a..ebeceef 100644
--- a/modules/inter/PASS.c
+++ b/modules/inter/PASS.c
@@ -21,7 +21,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	while(arg){
 		if(strcasecmp(arg->key, "FOR")==0){
 			filter=arg->ptr;
-		}else if(strcasecmp(arg->key, "LIMIT")==0 && sscanf(arg->ptr, "%d", &i)==1){
+		}else if(strcasecmp(arg->key, "LIMIT")==0 && arg->ptr && sscanf(arg->ptr, "%d", &i)==1){
 			r->limit=i;
 		}else{
 			free(r);
-- 
2.43.0


From fe3df1767163e9560047d2ff314114e87b5021e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:52 +0000
Subject: [PATCH 49/70] fix: inter/STRINGS released a dropped run again at the
 next datum

---
 modules/inter/STRINGS.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 14f0453..0ab01cd 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -119,6 +119,7 @@ void cbflush(struct bsdconv_instance *ins){
 				LISTCPY(ins, this_phase->data_tail, r->after);
 		}else{
 			DATA_FREE(ins, r->qh->next);
+			r->qh->next=NULL;
 			r->qt=r->qh;
 			r->acc_len=0;
 		}
-- 
2.43.0


From ba66e2dfb8bf7bff28d0742f0079a6feee06a439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:52 +0000
Subject: [PATCH 50/70] fix: inter/STRINGS dereferenced a null pointer when
 MIN-LEN had no value

---
 modules/inter/STRINGS.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 0ab01cd..0dde042 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -25,7 +25,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	while(arg){
 		if(strcasecmp(arg->key, "FOR")==0){
 			filter=arg->ptr;
-		}else if(strcasecmp(arg->key, "MIN-LEN")==0 && sscanf(arg->ptr, "%d", &i)==1){
+		}else if(strcasecmp(arg->key, "MIN-LEN")==0 && arg->ptr && sscanf(arg->ptr, "%d", &i)==1){
 			r->min_len=i;
 		}else if(strcasecmp(arg->key, "AFTER")==0){
 			after=arg->ptr;
-- 
2.43.0


From 09cb29d2ed71d8aa19d417f733377b6dba6c0b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 51/70] fix: inter/REPLACE kept released data when a later
 argument had no replacement

---
 modules/inter/REPLACE.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/inter/REPLACE.c b/modules/inter/REPLACE.c
index ebd0b64..d5d8dd5 100644
--- a/modules/inter/REPLACE.c
+++ b/modules/inter/REPLACE.c
@@ -16,6 +16,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	while(arg){
 		DATA_FREE(ins, r->from);
 		DATA_FREE(ins, r->to);
+		r->to=NULL;
 		r->from=str2data(arg->key, &e, ins);
 		if(e){
 			free(r);
-- 
2.43.0


From f0009c1f9150dfc710afefd321d4d4f9f52cacd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:42 +0000
Subject: [PATCH 52/70] fix: inter/REPLACE: an attempt that the end of the
 input cut off was continued inside the next one

---
 modules/inter/REPLACE.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/inter/REPLACE.c b/modules/inter/REPLACE.c
index d5d8dd5..66a00c3 100644
--- a/modules/inter/REPLACE.c
+++ b/modules/inter/REPLACE.c
@@ -56,10 +56,15 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *r=THIS_CODEC(ins)->priv;
 	unsigned char *datai=this_phase->curr->data;
-	unsigned char *datar=r->cursor->data;
+	unsigned char *datar;
 	size_t l=this_phase->curr->len;
 	size_t i;
 
+	/* a new attempt, the end of the input may have cut the last one off */
+	if(this_phase->curr == PREV_PHASE(ins)->data_head->next)
+		r->cursor=r->from;
+	datar=r->cursor->data;
+
 	if(l != r->cursor->len){
 		r->cursor=r->from;
 		this_phase->state.status=DEADEND;
-- 
2.43.0


From 68aeb7565990ab742abb49a984b03826748c9eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:15 +0000
Subject: [PATCH 53/70] fix: bsdconv_unpack leaked the names of the phases
 before one with a nameless codec

---
 src/libbsdconv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 80970c8..7d5911a 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -370,6 +370,11 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 				for(;j>=0;--j){
 					free(ins->phase[i].codec[j].desc);
 				}
+				for(--i;i>0;--i){
+					for(j=0;j<=ins->phase[i].codecn;++j){
+						free(ins->phase[i].codec[j].desc);
+					}
+				}
 				for(i=1;i<=ins->phasen;++i){
 					free(ins->phase[i].codec);
 				}
-- 
2.43.0


From 3cb018fec4f27b8c8e9193ea4f861bd6bcb57027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:45 +0000
Subject: [PATCH 54/70] fix: a failing bsdconv_create leaked the recycled list
 nodes

---
 src/libbsdconv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 7d5911a..5abb5e0 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -536,6 +536,11 @@ bsdconv_create_error:
 	free(ins->phase);
 
 	void *p;
+	while(ins->pool){
+		p=ins->pool->next;
+		free(ins->pool);
+		ins->pool=p;
+	}
 	while(ins->hash){
 		free(ins->hash->key);
 		p=ins->hash->next;
-- 
2.43.0


From 498b4e2bbe29942e02e21f2dda4f9e3a2dc33aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:45 +0000
Subject: [PATCH 55/70] fix: inter/REPLACE without anything to replace
 dereferenced a null pointer

---
 modules/inter/REPLACE.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/inter/REPLACE.c b/modules/inter/REPLACE.c
index 66a00c3..dfa8f55 100644
--- a/modules/inter/REPLACE.c
+++ b/modules/inter/REPLACE.c
@@ -36,6 +36,10 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}
 		arg=arg->next;
 	}
+	if(r->from==NULL){
+		free(r);
+		return EINVAL;
+	}
 	THIS_CODEC(ins)->priv=r;
 	return 0;
 }
-- 
2.43.0


From f70ee3b92f9951dd3ebb7fa5da7e544a5220e6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:45 +0000
Subject: [PATCH 56/70] fix: inter/INSERT leaked its state when given an
 unknown argument

---
 modules/inter/INSERT.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/inter/INSERT.c b/modules/inter/INSERT.c
index 6149aa2..04b08af 100644
--- a/modules/inter/INSERT.c
+++ b/modules/inter/INSERT.c
@@ -21,6 +21,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}else if(strcasecmp(arg->key, "BEFORE")==0){
 			before=arg->ptr;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
-- 
2.43.0


From 7c8d06fe9909be5dc1e51dedd6364b48f6e0d41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:45 +0000
Subject: [PATCH 57/70] fix: inter/TRIM-WIDTH leaked its state when its
 arguments were refused

---
 modules/inter/TRIM-WIDTH.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/inter/TRIM-WIDTH.c b/modules/inter/TRIM-WIDTH.c
index 0b7dc8b..2912397 100644
--- a/modules/inter/TRIM-WIDTH.c
+++ b/modules/inter/TRIM-WIDTH.c
@@ -29,13 +29,16 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 			r->width=i;
 			width_set=1;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
 	}
 
-	if(width_set==0)
+	if(width_set==0){
+		free(r);
 		return EINVAL;
+	}
 
 	r->ins=bsdconv_create("WIDTH");
 	r->full=bsdconv_counter(r->ins, "FULL");
-- 
2.43.0


From 52134a90b269fec5e1b860a55f5926bb1121c1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:45 +0000
Subject: [PATCH 58/70] fix: inter/SCORE leaked its state on an unknown
 argument and dereferenced a missing value

---
 modules/inter/SCORE.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index 34b5fc5..bde3916 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -22,11 +22,12 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	char *scorer="CJK";
 	char *counter="SCORE";
 	while(arg){
-		if(strcasecmp(arg->key, "WITH")==0){
+		if(strcasecmp(arg->key, "WITH")==0 && arg->ptr){
 			scorer=arg->ptr;
-		}else if(strcasecmp(arg->key, "AS")==0){
+		}else if(strcasecmp(arg->key, "AS")==0 && arg->ptr){
 			counter=arg->ptr;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
-- 
2.43.0


From 41e63a92a100eccec137a4bcb966478ed35e840f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:53 +0000
Subject: [PATCH 59/70] fix: inter/STRINGS kept its filter loaded when its
 arguments were refused and dereferenced a missing value

---
 modules/inter/STRINGS.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 0dde042..55b0a05 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -23,7 +23,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	char *after="010A";
 	char *before=NULL;
 	while(arg){
-		if(strcasecmp(arg->key, "FOR")==0){
+		if(strcasecmp(arg->key, "FOR")==0 && arg->ptr){
 			filter=arg->ptr;
 		}else if(strcasecmp(arg->key, "MIN-LEN")==0 && arg->ptr && sscanf(arg->ptr, "%d", &i)==1){
 			r->min_len=i;
@@ -49,6 +49,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		if(i){
 			if(r->after)
 				DATA_FREE(ins, r->after);
+			unload_filter(r->filter);
 			free(r);
 			return i;
 		}
@@ -61,6 +62,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				DATA_FREE(ins, r->after);
 			if(r->before)
 				DATA_FREE(ins, r->before);
+			unload_filter(r->filter);
 			free(r);
 			return i;
 		}
-- 
2.43.0


From 8ac39def1f0350d1ceaf89f95a7e6c59d6ca4eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:09 +0000
Subject: [PATCH 60/70] fix: from/EBCDIC decoded a pair in single-byte mode
 when its first byte is no single-byte character

---
 modules/from/EBCDIC.c    | 6 ++++++
 modules/from/IBM-930.txt | 1 +
 modules/from/IBM-933.txt | 1 +
 modules/from/IBM-935.txt | 1 +
 modules/from/IBM-937.txt | 1 +
 modules/from/IBM-939.txt | 1 +
 6 files changed, 11 insertions(+)

diff --git a/modules/from/EBCDIC.c b/modules/from/EBCDIC.c
index 35c652f..e83761f 100644
--- a/modules/from/EBCDIC.c
+++ b/modules/from/EBCDIC.c
@@ -34,6 +34,12 @@ void cbconv(struct bsdconv_instance *ins){
 		return;
 	}
 
+	/* not a single-byte character: the first byte of a double-byte one, which there is in double-byte mode only */
+	if(!this_phase->state.data){
+		this_phase->state.status=t->status ? CONTINUE : DEADEND;
+		return;
+	}
+
 	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 	c=UCP(this_phase->codec[this_phase->index].data_z+de_offset(data.data));
 
diff --git a/modules/from/IBM-930.txt b/modules/from/IBM-930.txt
index ed3a939..8c08667 100644
--- a/modules/from/IBM-930.txt
+++ b/modules/from/IBM-930.txt
@@ -11906,3 +11906,4 @@ F7	?0137
 F8	?0138
 F9	?0139
 FF	?019F
+*	?
diff --git a/modules/from/IBM-933.txt b/modules/from/IBM-933.txt
index 0411062..19c496f 100644
--- a/modules/from/IBM-933.txt
+++ b/modules/from/IBM-933.txt
@@ -10978,3 +10978,4 @@ F7	?0137
 F8	?0138
 F9	?0139
 FF	?019F
+*	?
diff --git a/modules/from/IBM-935.txt b/modules/from/IBM-935.txt
index 78de743..66961ad 100644
--- a/modules/from/IBM-935.txt
+++ b/modules/from/IBM-935.txt
@@ -9521,3 +9521,4 @@ F7	?0137
 F8	?0138
 F9	?0139
 FF	?019F
+*	?
diff --git a/modules/from/IBM-937.txt b/modules/from/IBM-937.txt
index d198097..c405d32 100644
--- a/modules/from/IBM-937.txt
+++ b/modules/from/IBM-937.txt
@@ -20430,3 +20430,4 @@ F7	?0137
 F8	?0138
 F9	?0139
 FF	?019F
+*	?
diff --git a/modules/from/IBM-939.txt b/modules/from/IBM-939.txt
index 41d5b18..bb25d91 100644
--- a/modules/from/IBM-939.txt
+++ b/modules/from/IBM-939.txt
@@ -11906,3 +11906,4 @@ F7	?0137
 F8	?0138
 F9	?0139
 FF	?019F
+*	?
-- 
2.43.0


From 901edb1b9e58165a327a48ae5629d4efae8f3014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:06 +0000
Subject: [PATCH 61/70] fix: from/_JIS went on with the state of a failed
 attempt and rejected everything up to the next escape sequence

---
 modules/from/_JIS.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index e8290d1..f1c42fb 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -66,6 +66,21 @@ void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_codec *codec = NULL;
 	struct data_rt *data_ptr;
 
+	if(!(this_phase->flags & F_LOOPBACK)){ /* a new attempt: forget the one that failed */
+		r->state = 0;
+		switch(r->mode){
+			case MODE_JIS0201:
+				r->cstate = read_state(&r->jis0201, 0);
+				break;
+			case MODE_JIS0208:
+				r->cstate = read_state(&r->jis0208, 0);
+				break;
+			case MODE_JIS0212:
+				r->cstate = read_state(&r->jis0212, 0);
+				break;
+		}
+	}
+
 	switch(r->state){
 		case 0:
 			switch(d){
-- 
2.43.0


From 975da31b28a309406247512f1091f1c7006b11a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:06 +0000
Subject: [PATCH 62/70] fix: from/_JIS: JIS X 0212 is designated by ESC $ ( D

---
 modules/from/_JIS.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index f1c42fb..6223c00 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -135,6 +135,10 @@ void cbconv(struct bsdconv_instance *ins){
 				break;
 			case 0x1B24:
 				switch(d){
+					case 0x28:
+						r->state = 0x1B2428;
+						this_phase->state.status = CONTINUE;
+						return;
 					case 0x40:
 						r->state = 0;
 						r->mode = MODE_JIS0208; //1978
@@ -155,10 +159,6 @@ void cbconv(struct bsdconv_instance *ins){
 				break;
 			case 0x1B28:
 				switch(d){
-					case 0x24:
-						r->state = 0x1B2824;
-						this_phase->state.status = CONTINUE;
-						return;
 					case 0x42:
 						r->state = 0;
 						r->mode = MODE_ASCII;
@@ -182,7 +182,7 @@ void cbconv(struct bsdconv_instance *ins){
 						return;
 				}
 				break;
-			case 0x1B2824:
+			case 0x1B2428:
 				switch(d){
 					case 0x44:
 						r->state = 0;
-- 
2.43.0


From 8e099213d009a344f682db8ac920b7ab5de919fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:28 +0000
Subject: [PATCH 63/70] fix: to/EBCDIC encoded a datum that merely begins like
 a listed one

---
 modules/to/EBCDIC.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/to/EBCDIC.c b/modules/to/EBCDIC.c
index afb2170..b5c7a4d 100644
--- a/modules/to/EBCDIC.c
+++ b/modules/to/EBCDIC.c
@@ -50,6 +50,12 @@ void cbconv(struct bsdconv_instance *ins){
 	struct data_st data;
 	struct data_rt *data_ptr;
 
+	/* only the beginning of the datum is listed */
+	if(this_phase->i < this_phase->curr->len){
+		this_phase->state.status=DEADEND;
+		return;
+	}
+
 	memcpy(&data, (char *)(this_phase->codec[this_phase->index].data_z+(uintptr_t)this_phase->state.data), sizeof(struct data_st));
 
 	if(data.len>1 && t->status==0){
-- 
2.43.0


From a730033f9699673195303ff9496c06404bada7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:13 +0000
Subject: [PATCH 64/70] fix: a datum that a stateful encoder refused was
 dropped without counting it when it followed data it had taken

---
 src/libbsdconv.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 5abb5e0..6f6aa01 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -933,6 +933,8 @@ void bsdconv(struct bsdconv_instance *ins){
 								this_phase->curr=prev_phase->data_head;
 							}else if(this_codec->cbflush){
 								this_codec->cbflush(ins);
+								/* the datum that ended the match is still to be encoded */
+								this_phase->curr=prev_phase->data_head;
 							}
 
 							this_phase->flags &= ~F_MATCH;
-- 
2.43.0


From 52ae69734bd5830c1f707ce7ec20b967e28877f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:04 +0000
Subject: [PATCH 65/70] fix: from/_JIS lost the first byte of a character whose
 second byte is missing before an escape sequence

---
 modules/from/_JIS.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 6223c00..eef0d82 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -85,6 +85,10 @@ void cbconv(struct bsdconv_instance *ins){
 		case 0:
 			switch(d){
 				case 0x1B:
+					if(this_phase->flags & F_LOOPBACK){ /* the second byte of a character is missing */
+						this_phase->state.status = DEADEND;
+						return;
+					}
 					r->state = 0x1B;
 					this_phase->state.status = CONTINUE;
 					return;
-- 
2.43.0


From 65bd2fb7d6601bd420ddf60036f6b58d9926e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:15 +0000
Subject: [PATCH 66/70] fix: bsdconv -i removed the file before the converted
 one took its place

---
 src/bsdconv.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index 74794eb..5ab7d61 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -150,7 +150,9 @@ int main(int argc, char *argv[]){
 			bsdconv_file(ins, inf, otf, argv[i]);
 			fclose(inf);
 			fclose(otf);
-			unlink(argv[i]);
+#ifdef WIN32
+			unlink(argv[i]); /* rename() does not replace an existing file there */
+#endif
 			rename(tmp,argv[i]);
 			free(tmp);
 
-- 
2.43.0


From 9240ed27daf9c5457a8f6ab66bf42d5796ba3ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:28 +0000
Subject: [PATCH 67/70] fix: bsdconv -i replaced the file although reading or
 writing had failed

---
 src/bsdconv.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index 5ab7d61..a6fb28b 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -79,6 +79,7 @@ int main(int argc, char *argv[]){
 	struct bsdconv_instance *ins;
 	FILE *inf=NULL, *otf=stdout;
 	int inplace=0;
+	int failed;
 	int i;
 
 	if(argc<2){
@@ -148,8 +149,16 @@ int main(int argc, char *argv[]){
 			fchmod(fileno(otf), stat.st_mode);
 #endif
 			bsdconv_file(ins, inf, otf, argv[i]);
+			failed=ferror(inf) || ferror(otf);
 			fclose(inf);
-			fclose(otf);
+			if(fclose(otf)!=0 || failed){
+				/* keep the file, what there is of the converted one is not all of it */
+				fprintf(stderr, "Failed converting file %s.\n", argv[i]);
+				unlink(tmp);
+				free(tmp);
+				bsdconv_destroy(ins);
+				exit(1);
+			}
 #ifdef WIN32
 			unlink(argv[i]); /* rename() does not replace an existing file there */
 #endif
-- 
2.43.0


From bb6945b755aed58b1200128a204913b5fceaf8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:41 +0000
Subject: [PATCH 68/70] fix: bsdconv -i reported success when the converted
 file could not be moved into place

---
 src/bsdconv.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index a6fb28b..052f1a4 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -162,7 +162,13 @@ int main(int argc, char *argv[]){
 #ifdef WIN32
 			unlink(argv[i]); /* rename() does not replace an existing file there */
 #endif
-			rename(tmp,argv[i]);
+			if(rename(tmp,argv[i])!=0){
+				fprintf(stderr, "Failed replacing file %s.\n", argv[i]);
+				unlink(tmp);
+				free(tmp);
+				bsdconv_destroy(ins);
+				exit(1);
+			}
 			free(tmp);
 
 		}else{
-- 
2.43.0


From 9c594067701e287016ee4301a1fd11ba41582d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:19 +0000
Subject: [PATCH 69/70] fix: bsdconv_create read uninitialized fields and
 crashed when a module it depends on is missing

---
 src/libbsdconv.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 6f6aa01..12ef8ed 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -429,7 +429,14 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 					if(bsdconv_module_vital(ins->phase[i].type, ins->phase[i].codec[j].desc)){
 						printf("error %s\n", ins->phase[i].codec[j].desc);
 						free(conversion);
-						bsdconv_destroy(ins);
+						for(i=1;i<=ins->phasen;++i){ /* nothing is loaded yet */
+							for(j=0;j<=ins->phase[i].codecn;++j){
+								free(ins->phase[i].codec[j].desc);
+							}
+							free(ins->phase[i].codec);
+						}
+						free(ins->phase);
+						free(ins);
 						SetLastError(EDOOFUS);
 						return NULL;
 					}
-- 
2.43.0


From 064252818b06b922dd088e91b5beb90d43790eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:16 +0000
Subject: [PATCH 70/70] fix: bsdconv_create lost memory when a codec could not
 be loaded

---
 src/libbsdconv.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 12ef8ed..bfc6625 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -391,6 +391,7 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 
 struct bsdconv_instance *bsdconv_create(const char *_conversion){
 	int e=0;
+	int k, l;
 	struct bsdconv_instance *ins=NULL;
 	char *conversion=malloc(strlen(_conversion)+1);
 	int i, j;
@@ -474,7 +475,11 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			if(!loadcodec(&ins->phase[i].codec[j], ins->phase[i].type)){
-				free(ins->phase[i].codec[j].desc);
+				for(l=ins->phasen;l>=i;--l){ /* those after it are not loaded yet */
+					for(k=ins->phase[l].codecn;k>=(l==i?j:0);--k){
+						free(ins->phase[l].codec[k].desc);
+					}
+				}
 				j-=1;
 				for(;i>=1;j=ins->phase[--i].codecn){
 					for(;j>=0;--j){
-- 
2.43.0

