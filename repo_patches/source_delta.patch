From df46b6c39766c0dbf9227f8c0d460a012915132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:45 +0000
Subject: [PATCH 01/55] fix: read the spin rate of a landmark observation from
 its own bytes

The observation time takes 8 bytes at 50, so the spin rate starts at 58:
reading 60 mixed its last bytes with the first two of AlphaDeviation.
---
 msat/hrit/MSG_data_NavigExtrResult.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_NavigExtrResult.cpp b/msat/hrit/MSG_data_NavigExtrResult.cpp
index ee26189..dcf99b7 100644
--- a/msat/hrit/MSG_data_NavigExtrResult.cpp
+++ b/msat/hrit/MSG_data_NavigExtrResult.cpp
@@ -124,7 +124,7 @@ size_t MSG_LandmarkObservation::read_from( unsigned const char_1 *buff )
   Beta = get_r8(buff+34);
   BetaConfidence = get_r8(buff+42);
   (void) ObservationTime.read_from(buff+50);
-  SpinRate = get_r8(buff+60);
+  SpinRate = get_r8(buff+58);
   AlphaDeviation = get_r8(buff+66);
   BetaDeviation = get_r8(buff+74);
   return 82;
-- 
2.43.0


From 4e4a0816217f09e0def0a0d8f224f17bf9f53b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 02/55] fix: read the calibration constants from consecutive
 4-byte reals

---
 msat/hrit/MSG_data_IMPFConfiguration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_IMPFConfiguration.cpp b/msat/hrit/MSG_data_IMPFConfiguration.cpp
index 35d084f..7a7baa8 100644
--- a/msat/hrit/MSG_data_IMPFConfiguration.cpp
+++ b/msat/hrit/MSG_data_IMPFConfiguration.cpp
@@ -344,7 +344,7 @@ size_t MSG_BlackBodyDataWarmStart::read_from( unsigned const char_1 *buff )
     GainInFrontOpticsCont[i] = get_r8(buff+position+i*8);
   position += 96;
   for (int i = 0; i < 12; i ++)
-    CalibrationConstants[i] = get_r4(buff+position+i*8);
+    CalibrationConstants[i] = get_r4(buff+position+i*4);
   position += 48;
   TimeOfColdObsSeconds = get_r8(buff+position);
   position += 8;
-- 
2.43.0


From 1e292f8281ac86c7757df79cf531bd2efad3e1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 03/55] fix: read the resampling function of each channel, not
 the first one twelve times

---
 msat/hrit/MSG_data_GeometricProc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_GeometricProc.cpp b/msat/hrit/MSG_data_GeometricProc.cpp
index b5876f9..7944a72 100644
--- a/msat/hrit/MSG_data_GeometricProc.cpp
+++ b/msat/hrit/MSG_data_GeometricProc.cpp
@@ -126,7 +126,7 @@ size_t MSG_data_GeometricProc::read_from( unsigned const char_1 *buff)
       AtmosphericModel[i][j] = get_r4(buff+position+(i*360+j)*4);
   position += 12*360*4;
   for (int i = 0; i < 12; i ++)
-    ResamplingFunction[i] = (t_enum_MSG_resampling_function) *(buff+position);
+    ResamplingFunction[i] = (t_enum_MSG_resampling_function) *(buff+position+i);
   position += 12;
   return position;
 }
-- 
2.43.0


From 0f71430a54d164a4d222265b843ff4b9792788b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 04/55] fix: copy the DCR values from their own offset without
 overrunning them

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 7c31d29..801e128 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -361,7 +361,7 @@ size_t MSG_BlackBodyDataUsed::read_from( unsigned const char_1 *buff )
   for (int i = 0; i < 15; i ++)
     PUBias[i] = get_ui2(buff+position+i*2);
   position += 15*2;
-  memcpy(DCRValues, buff, 63);
+  memcpy(DCRValues, buff+position, sizeof(DCRValues));
   position += 63;
   XDeepSpaceWindowPosition = (t_enum_MSG_DeepSpace_Window_Position)
                              *(buff+position);
-- 
2.43.0


From 7b084b4bc5c04d11ff80ade98b5292efbbbf923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 05/55] fix: decode the FCU SMM status words as big-endian

---
 msat/hrit/MSG_data_RadiometricProc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index 801e128..b5ab28c 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -406,9 +406,9 @@ size_t MSG_BlackBodyDataUsed::read_from( unsigned const char_1 *buff )
   position += 2;
   FCURedundantBlackBodySensorTemp = get_ui2(buff+position);
   position += 2;
-  memcpy((void *) &FCUNominalSMMStatus, buff+position, 2);
+  FCUNominalSMMStatus.status = get_ui2(buff+position);
   position += 2;
-  memcpy((void *) &FCURedundantSMMStatus, buff+position, 2);
+  FCURedundantSMMStatus.status = get_ui2(buff+position);
   position += 2;
   for (int i = 0; i < 12; i ++)
     position += ExtractedBBData[i].read_from(buff+position);
-- 
2.43.0


From 0b3e7729152bdc009ea259a88ddd8f875afce069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:14 +0000
Subject: [PATCH 06/55] fix: read the key number and public key after the
 two-byte station number

---
 msat/hrit/MSG_data_key.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/hrit/MSG_data_key.cpp b/msat/hrit/MSG_data_key.cpp
index 2671d73..995590c 100644
--- a/msat/hrit/MSG_data_key.cpp
+++ b/msat/hrit/MSG_data_key.cpp
@@ -60,8 +60,8 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
   for (int i = 0; i < nkeys; i ++)
   {
     keys[i].User_Station_number = get_ui2(pnt);
-    keys[i].Key_Number = *(pnt+1);
-    memcpy(keys[i].Public_key, pnt+2, 192);
+    keys[i].Key_Number = *(pnt+2);
+    memcpy(keys[i].Public_key, pnt+3, 192);
     keys[i].Public_Key_CRC = get_ui2(pnt+195);
     pnt = pnt + MSG_KEY_MESSAGE_LEN;
   }
-- 
2.43.0


From adbcb9854e117f25c6a3f8a60dd85ddf570ecdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 07/55] fix: report native read failures with an exception
 instead of terminating

A bare throw outside of a handler calls std::terminate.
---
 msat/msg-native/MSG_native_header.cpp  | 11 ++++++-----
 msat/msg-native/MSG_native_line.cpp    |  9 +++++----
 msat/msg-native/MSG_native_trailer.cpp |  9 +++++----
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/msat/msg-native/MSG_native_header.cpp b/msat/msg-native/MSG_native_header.cpp
index f3c0aee..b265978 100644
--- a/msat/msg-native/MSG_native_header.cpp
+++ b/msat/msg-native/MSG_native_header.cpp
@@ -21,6 +21,7 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //-----------------------------------------------------------------------------
+#include <stdexcept>
 #include <msat/msg-native/MSG_native_header.h>
 
 void U_MARF_Header::read_from(const unsigned char *buf)
@@ -90,7 +91,7 @@ void MSG_native_header::read( std::ifstream &in )
   if (in.fail( ))
   {
     std::cerr << "Read error from Native file: U-MARF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: U-MARF Header.");
   }
   mph_sph_header.read_from(ubuf);
 
@@ -98,21 +99,21 @@ void MSG_native_header::read( std::ifstream &in )
   if (in.fail( ))
   {
     std::cerr << "Read error from Native file: IMPF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: IMPF Header.");
   }
   impf_packet_header.read_from(lbuf);
 
   if (l15_len != impf_packet_header.gp_packet_header.PacketLength - 15)
   {
     std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header.");
   }
 
   in.read((char *) l15buf, l15_len);
   if (in.fail( ))
   {
     std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header.");
   }
   unsigned char *x = l15buf;
   unsigned char *p = l15buf + 1;
@@ -133,7 +134,7 @@ void MSG_native_header::read( std::ifstream &in )
   if (((unsigned int) (p-x)) != l15_len)
   {
     std::cerr << "Read error from Native file: Level 1.5 Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Header.");
   }
 
   return;
diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 186e2e2..0af8541 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -22,6 +22,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <msat/msg-native/MSG_native_line.h>
 #include <msat/hrit/MSG_machine.h>
 
@@ -191,28 +192,28 @@ void MSG_native_line::read( std::ifstream &in )
   if (in.fail( ))
   {
     std::cerr << "Read error from Native file: Packet Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Packet Header.");
   }
   pkh.read_from(lbuf);
   data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
   if (data.datasize < 0)
   {
     std::cerr << "Read error from Native file: Packet Size." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Packet Size.");
   }
   data.data_10bit = new unsigned char[data.datasize];
   in.read((char *) lhbuf, header.lhlen);
   if (in.fail( ))
   {
     std::cerr << "Read error from Native file: Line Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Line Header.");
   }
   header.read_from(lhbuf);
   in.read((char *) data.data_10bit, data.datasize);
   if (in.fail( ))
   {
     std::cerr << "Read error from Native file: Line Data." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Line Data.");
   }
   return;
 }
diff --git a/msat/msg-native/MSG_native_trailer.cpp b/msat/msg-native/MSG_native_trailer.cpp
index 2cf427f..2cf8837 100644
--- a/msat/msg-native/MSG_native_trailer.cpp
+++ b/msat/msg-native/MSG_native_trailer.cpp
@@ -22,6 +22,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <msat/msg-native/MSG_native_trailer.h>
 
 void MSG_native_trailer::read( std::ifstream &in )
@@ -33,7 +34,7 @@ void MSG_native_trailer::read( std::ifstream &in )
   if (in.fail( ))
   {
     std::cerr << "Read error from Native file: IMPF Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: IMPF Header.");
   }
   impf_packet_header.read_from(lbuf);
 
@@ -41,7 +42,7 @@ void MSG_native_trailer::read( std::ifstream &in )
   {
     std::cerr << "Trailer Size: "
               << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Trailer.");
   }
 
   in.read((char *) l15buf, l15_len);
@@ -49,7 +50,7 @@ void MSG_native_trailer::read( std::ifstream &in )
   {
     std::cerr << "Trailer: "
               << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Trailer.");
   }
   unsigned char *x = l15buf;
   unsigned char *p = l15buf + 1;
@@ -67,7 +68,7 @@ void MSG_native_trailer::read( std::ifstream &in )
   {
     std::cerr << "Trailer checksum: "
               << "Read error from Native file: Level 1.5 Trailer." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from Native file: Level 1.5 Trailer.");
   }
 
   return;
-- 
2.43.0


From 0300c8be2ee2ea6dc4d151fadf982d6042780e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 08/55] fix: report malformed HRIT input with an exception
 instead of terminating

A bare throw outside of a handler calls std::terminate.
---
 msat/hrit/MSG_data.cpp                  | 19 ++++++++++---------
 msat/hrit/MSG_data_RadiometricProc.cpp  |  3 ++-
 msat/hrit/MSG_data_gts.cpp              |  3 ++-
 msat/hrit/MSG_data_image.cpp            |  3 ++-
 msat/hrit/MSG_data_key.cpp              |  3 ++-
 msat/hrit/MSG_data_text.cpp             |  3 ++-
 msat/hrit/MSG_header.cpp                | 25 +++++++++++++------------
 msat/hrit/MSG_header_ancillary_text.cpp |  5 +++--
 msat/hrit/MSG_header_image_datafunc.cpp |  5 +++--
 9 files changed, 39 insertions(+), 30 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 49a5d39..7326919 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <string>
 #include <fstream>
 #include <msat/hrit/MSG_data.h>
@@ -99,7 +100,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("Read error from HRIT file: Data field.");
       }
 
       if (header.image_structure->compression_flag == MSG_NO_COMPRESSION)
@@ -129,7 +130,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("Read error from HRIT file: Data field.");
       }
       gts_message = new MSG_data_gts;
       dpos = gts_message->read_from(dbuff, dsize);
@@ -150,7 +151,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("Read error from HRIT file: Data field.");
       }
       text_message = new MSG_data_text;
       dpos = text_message->read_from(dbuff, dsize);
@@ -166,7 +167,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("Read error from HRIT file: Data field.");
       }
       key_message = new MSG_data_key;
       dpos = key_message->read_from(dbuff, dsize);
@@ -181,7 +182,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("Read error from HRIT file: Data field.");
       }
 
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
@@ -237,7 +238,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("Read error from HRIT file: Data field.");
       }
 
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
@@ -274,7 +275,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (in.fail( ))
       {
         std::cerr << "Read error from HRIT file: Data field." << std::endl;
-        throw;
+        throw std::runtime_error("Read error from HRIT file: Data field.");
       }
       {
         std::ofstream os;
@@ -283,7 +284,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
         outname += ".bin";
         os.open(outname.c_str( ));
         if (!os.good())
-          throw;
+          throw std::runtime_error("");
         os.write((char *) dbuff, (size_t) dsize);
         os.close( );
       }
@@ -291,7 +292,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
     default:
       std::cerr << "Unknown MSG file type " << header.f_typecode << std::endl;
-      throw;
+      throw std::runtime_error("Unknown MSG file type");
       break;
   }
 
diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index b5ab28c..b2c2aa5 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <fstream>
 #include <cstring>
 #include <iomanip>
@@ -667,7 +668,7 @@ float radiance_to_reflectance(int chnum, float radiance,
   if (chnum != 1 || chnum != 2 || chnum != 3 || chnum != 12)
   {
     std::cerr << "Wrong channel number : " << chnum << std::endl;
-    throw;
+    throw std::runtime_error("Wrong channel number");
   }
 
   int jd = msat::facts::jday(year, month, day);
diff --git a/msat/hrit/MSG_data_gts.cpp b/msat/hrit/MSG_data_gts.cpp
index 6c276f4..2c680f7 100644
--- a/msat/hrit/MSG_data_gts.cpp
+++ b/msat/hrit/MSG_data_gts.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <fstream>
 #include <cstring>
 #include <msat/hrit/MSG_data_gts.h>
@@ -53,7 +54,7 @@ size_t MSG_data_gts::read_from( unsigned const char_1 *buff, size_t datasize )
   if (msize == 0 || msize > (MSG_MAX_GTS_MESSAGE_SIZE*MSG_MAX_GTS_MESSAGES))
   {
     std::cerr << "Invalid GTS message(s) size." << std::endl;
-    throw;
+    throw std::runtime_error("Invalid GTS message(s) size.");
   }
 
   mbuff = new unsigned char_1[msize];
diff --git a/msat/hrit/MSG_data_image.cpp b/msat/hrit/MSG_data_image.cpp
index b642b75..ac451f9 100644
--- a/msat/hrit/MSG_data_image.cpp
+++ b/msat/hrit/MSG_data_image.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <vector>
 #include <cstring>
 
@@ -64,7 +65,7 @@ void MSG_data_image_encoded::decode( MSG_data_image *dec )
       break;
     default:
       std::cerr << "Unknown compression used." << std::endl;
-      throw;
+      throw std::runtime_error("Unknown compression used.");
   }
 
   COMP::CImage cimg(udata);
diff --git a/msat/hrit/MSG_data_key.cpp b/msat/hrit/MSG_data_key.cpp
index 995590c..aab3932 100644
--- a/msat/hrit/MSG_data_key.cpp
+++ b/msat/hrit/MSG_data_key.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <cstring>
 #include <msat/hrit/MSG_data_key.h>
 
@@ -52,7 +53,7 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
   if (nkeys > MSG_MAX_NUMBER_KEY_MESSAGES || nkeys <= 0)
   {
     std::cerr << "Key message number or size invalid." << std::endl;
-    throw;
+    throw std::runtime_error("Key message number or size invalid.");
   }
 
   keys = new MSG_encryption_key[nkeys];
diff --git a/msat/hrit/MSG_data_text.cpp b/msat/hrit/MSG_data_text.cpp
index 8ee630d..cf00049 100644
--- a/msat/hrit/MSG_data_text.cpp
+++ b/msat/hrit/MSG_data_text.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <fstream>
 #include <cstring>
 #include <msat/hrit/MSG_data_text.h>
@@ -53,7 +54,7 @@ size_t MSG_data_text::read_from( unsigned const char_1 *buff, size_t datasize )
   if (tsize == 0)
   {
     std::cerr << "Invalid TEXT message size." << std::endl;
-    throw;
+    throw std::runtime_error("Invalid TEXT message size.");
   }
 
   tbuff = new unsigned char_1[tsize];
diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index 898b67c..66a44cb 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <cstring>
 
 #include <msat/hrit/MSG_header.h>
@@ -81,18 +82,18 @@ void MSG_header::read_from( std::ifstream &in )
   if (in.fail( ))
   {
     std::cerr << "Read error from HRIT file: Primary Header." << std::endl;
-    throw;
+    throw std::runtime_error("Read error from HRIT file: Primary Header.");
   }
   if (primary_header[0] != MSG_HEADER_PRIMARY)
   {
     std::cerr << "Error: First header type value is not primary." << std::endl;
-    throw;
+    throw std::runtime_error("First header type value is not primary.");
   }
   if (get_ui2(primary_header+1) != MSG_HEADER_PRIMARY_LEN)
   {
     std::cerr << "Error: Primary Header Length mismatch." << std::endl;
     std::cerr << "Header Length: " << get_ui2(primary_header+1) << std::endl;
-    throw;
+    throw std::runtime_error("Primary Header Length mismatch.");
   }
   f_typecode = (t_enum_MSG_filetype) *(primary_header+3);
   total_header_length = get_ui4(primary_header+4);
@@ -104,13 +105,13 @@ void MSG_header::read_from( std::ifstream &in )
   {
     std::cerr << "Memory allocation error in MSG_header." << std::endl
               << "Requested allocation of " << hsize << " bytes." << std::endl;
-    throw;
+    throw std::runtime_error("Memory allocation error in MSG_header.");
   }
   in.read((char_1 *) hbuff, hsize);
   if (in.fail( ))
   {
     std::cerr << "Read error from HRIT file: Header body" << std::endl;
-    throw;
+    throw std::runtime_error("Read error from HRIT file: Header body");
   }
   unsigned char_1 *pnt = hbuff;
   size_t left = hsize;
@@ -125,7 +126,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Image Structure Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Image Structure Header mismatch.");
         }
         image_structure = new MSG_header_image_struct;
         image_structure->read_from(pnt);
@@ -137,7 +138,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Image Navigation Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Image Navigation Header mismatch.");
         }
         image_navigation = new MSG_header_image_navig;
         image_navigation->read_from(pnt);
@@ -156,7 +157,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Annotation Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Annotation Header mismatch.");
         }
         annotation = new MSG_header_annotation;
         annotation->read_from(pnt);
@@ -168,7 +169,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Timestamp Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Timestamp Header mismatch.");
         }
         timestamp = new MSG_header_timestamp;
         timestamp->read_from(pnt);
@@ -187,7 +188,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Key Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Key Header mismatch.");
         }
         key = new MSG_header_key;
         key->read_from(pnt);
@@ -199,7 +200,7 @@ void MSG_header::read_from( std::ifstream &in )
         {
           std::cerr << "Error: Segment Id Header mismatch." << std::endl;
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
-          throw;
+          throw std::runtime_error("Segment Id Header mismatch.");
         }
         segment_id = new MSG_header_segment_id;
         segment_id->read_from(pnt);
@@ -216,7 +217,7 @@ void MSG_header::read_from( std::ifstream &in )
       default:
         std::cerr << "Unknown header type: " << (uint_2) *pnt << std::endl;
         std::cerr << "Unparsed " << left << " bytes." << std::endl;
-        throw;
+        throw std::runtime_error("Unknown header type");
         break;
       }
    }
diff --git a/msat/hrit/MSG_header_ancillary_text.cpp b/msat/hrit/MSG_header_ancillary_text.cpp
index 70e5ef9..f84423b 100644
--- a/msat/hrit/MSG_header_ancillary_text.cpp
+++ b/msat/hrit/MSG_header_ancillary_text.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <cstring>
 
 #include <msat/hrit/MSG_header_ancillary_text.h>
@@ -56,14 +57,14 @@ void MSG_header_ancillary_text::read_from( unsigned const char_1 *buff )
   {
     std::cerr << "Error: Data Function Header length invalid." << std::endl;
     std::cerr << "Header Length : " << h_length << std::endl;
-    throw;
+    throw std::runtime_error("Data Function Header length invalid.");
   }
   ancillary_text = new char_1[h_length];
   if (!ancillary_text)
   {
     std::cerr << "Memory error in MSG_header_ancillary_text." << std::endl;
     std::cerr << "Header Length : " << h_length << std::endl;
-    throw;
+    throw std::runtime_error("Memory error in MSG_header_ancillary_text.");
   }
   memcpy(ancillary_text, buff+3, h_length);
   return;
diff --git a/msat/hrit/MSG_header_image_datafunc.cpp b/msat/hrit/MSG_header_image_datafunc.cpp
index f351e92..f17765a 100644
--- a/msat/hrit/MSG_header_image_datafunc.cpp
+++ b/msat/hrit/MSG_header_image_datafunc.cpp
@@ -27,6 +27,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <stdexcept>
 #include <cstring>
 #include <msat/hrit/MSG_header_image_datafunc.h>
 
@@ -49,14 +50,14 @@ void MSG_header_image_datafunc::read_from( unsigned const char_1 *buff )
   {
     std::cerr << "Error: Data Function Header length invalid." << std::endl;
     std::cerr << "Header Length : " << h_length - 1 << std::endl;
-    throw;
+    throw std::runtime_error("Data Function Header length invalid.");
   }
   char_1 *tmpchar = new char_1[h_length];
   if (!tmpchar)
   {
     std::cerr << "Memory error in MSG_header_image_datafunc." << std::endl;
     std::cerr << "Header Length : " << h_length - 1 << std::endl;
-    throw;
+    throw std::runtime_error("Memory error in MSG_header_image_datafunc.");
   }
   memcpy(tmpchar, buff+3, h_length-1);
   tmpchar[h_length-1] = 0;
-- 
2.43.0


From 6797d3cee6449a5e5c8108b287f66734f26d15c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 09/55] fix: report malformed HRI input with an exception
 instead of terminating

A bare throw outside of a handler calls std::terminate.
---
 msat/hri/HRI.cpp                         | 17 +++++++++--------
 msat/hri/HRI_geolocation.h               |  3 ++-
 msat/hri/HRI_image.cpp                   | 23 ++++++++++++-----------
 msat/hri/HRI_subframe_identification.cpp |  5 +++--
 msat/hri/HRI_subframe_label.cpp          |  3 ++-
 5 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index c2eca77..2b8f858 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -26,6 +26,7 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //-----------------------------------------------------------------------------
+#include <stdexcept>
 #include <iostream>
 #include <fstream>
 #include <cstring>
@@ -46,7 +47,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   if (hri.fail())
   {
     std::cerr << "Cannot open input hri file " << hri_filename << std::endl;
-    throw;
+    throw std::runtime_error("Cannot open input hri file");
   }
 
   if (IS_TECNAVIA)
@@ -375,7 +376,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
   {
     std::cerr << "Invalid format or non disseminated image : "
               << format << std::endl;
-    throw;
+    throw std::runtime_error("Invalid format or non disseminated image");
   }
 
   geo.set_format(format);
@@ -467,7 +468,7 @@ unsigned char * Hri::get_dataline( ifstream &hri, int format )
   else
   {
     std::cerr << "Invalid HRI format : " << format << std::endl;
-    throw;
+    throw std::runtime_error("Invalid HRI format");
   }
   return linebuff;
 }
@@ -484,7 +485,7 @@ unsigned char * Hri::mod_get_dataline( ifstream &hri, int format )
     if (hri.fail())
     {
       std::cerr << "Read failed." << std::endl;
-      throw;
+      throw std::runtime_error("Read failed.");
     }
     memcpy(linebuff+1660, mod_framebuff, 840);
   }
@@ -496,14 +497,14 @@ unsigned char * Hri::mod_get_dataline( ifstream &hri, int format )
     if (hri.fail())
     {
       std::cerr << "Read failed." << std::endl;
-      throw;
+      throw std::runtime_error("Read failed.");
     }
     memcpy(linebuff+168, mod_framebuff, 1082);
   }
   else
   {
     std::cerr << "Invalid HRI format : " << format << std::endl;
-    throw;
+    throw std::runtime_error("Invalid HRI format");
   }
   return linebuff;
 }
@@ -528,7 +529,7 @@ void Hri::mod_getbuff( ifstream &hri, int offset )
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
          << hri.tellg( ) << " - " << mod_framesize << std::endl;
-    throw;
+    throw std::runtime_error("Sync error in input hri file.");
   }
   return;
 }
@@ -551,7 +552,7 @@ void Hri::getbuff( ifstream &hri )
     std::cerr << "Sync error in input hri file." << std::endl;
     std::cerr << "Position is : " << std::hex
          << hri.tellg( ) << " - " << framesize << std::endl;
-    throw;
+    throw std::runtime_error("Sync error in input hri file.");
   }
   return;
 }
diff --git a/msat/hri/HRI_geolocation.h b/msat/hri/HRI_geolocation.h
index 043e351..bcdb0c5 100644
--- a/msat/hri/HRI_geolocation.h
+++ b/msat/hri/HRI_geolocation.h
@@ -26,6 +26,7 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //-----------------------------------------------------------------------------
+#include <stdexcept>
 #include <string>
 #include <iostream>
 
@@ -77,7 +78,7 @@ class HRI_geolocation {
       {
 	std::cerr << "Unknown or unsupported format in HRI_geolocation"
                   << std::endl;
-	throw;
+	throw std::runtime_error("Unknown or unsupported format in HRI_geolocation");
       }
     }
     geolocation &get_geolocation( ) { return g; }
diff --git a/msat/hri/HRI_image.cpp b/msat/hri/HRI_image.cpp
index e92528a..165ef18 100644
--- a/msat/hri/HRI_image.cpp
+++ b/msat/hri/HRI_image.cpp
@@ -26,6 +26,7 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //-----------------------------------------------------------------------------
+#include <stdexcept>
 #include <msat/hri/HRI_image.h>
 #include <iostream>
 #include <cassert>
@@ -124,7 +125,7 @@ void HRI_image::set_format_band( HRI_image_satellite s,
         default:
 	  std::cerr << "Undefined band for A Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("Undefined band for A Format image in HRI_Image");
 	  break;
       }
       break;
@@ -173,7 +174,7 @@ void HRI_image::set_format_band( HRI_image_satellite s,
 	default:
 	  std::cerr << "Undefined band for B Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("Undefined band for B Format image in HRI_Image");
 	  break;
       }
       break;
@@ -222,13 +223,13 @@ void HRI_image::set_format_band( HRI_image_satellite s,
 	default:
 	  std::cerr << "Undefined band for X Format image in HRI_Image"
                     << std::endl;
-	  throw;
+	  throw std::runtime_error("Undefined band for X Format image in HRI_Image");
 	  break;
       }
       break;
     default:
       std::cerr << "Undefined format in HRI_image" << std::endl;
-      throw;
+      throw std::runtime_error("Undefined format in HRI_image");
   }
   data  = new unsigned char[size];
   aline = new unsigned char[npixels];
@@ -244,14 +245,14 @@ void HRI_image::put_line( unsigned char *dataline, int linesize, int linenum )
   {
     std::cerr << "Invalid line size : " << linesize << std::endl;
     std::cerr << "Maximum line size for this image is " << npixels << std::endl;
-    throw;
+    throw std::runtime_error("Invalid line size");
   }
   if (linenum < 0 || linenum > lastlin)
   {
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("Out of range line number");
   }
   memcpy(data+linenum*npixels, dataline, linesize);
   return;
@@ -266,14 +267,14 @@ void HRI_image::put_halfline( unsigned char *dataline, int linesize,
     std::cerr << "Invalid half line size : " << linesize << std::endl;
     std::cerr << "Maximum half line size for this image is "
               << halflin << std::endl;
-    throw;
+    throw std::runtime_error("Invalid half line size");
   }
   if (linenum < 0 || linenum > lastlin)
   {
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("Out of range line number");
   }
   if (firsthalf)
     memcpy(data+linenum*npixels, dataline, linesize);
@@ -290,7 +291,7 @@ unsigned char * HRI_image::get_line( int linenum )
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("Out of range line number");
   }
   memcpy(aline, data+linenum*npixels, npixels);
   return aline;
@@ -314,14 +315,14 @@ unsigned char HRI_image::get_pixel( int linenum, int pixelnum )
     std::cerr << "Out of range line number : " << linenum << std::endl;
     std::cerr << "Maximum line number for this image is "
               << lastlin << std::endl;
-    throw;
+    throw std::runtime_error("Out of range line number");
   }
   if (pixelnum < 0 || pixelnum > lastpix)
   {
     std::cerr << "Out of range pixel number : " << pixelnum  << std::endl;
     std::cerr << "Maximum pixel number for this image is "
               << lastpix << std::endl;
-    throw;
+    throw std::runtime_error("Out of range pixel number");
   }
   return *(data+linenum*npixels+pixelnum);
 }
diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index f8aa79d..a3d1a0f 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -26,6 +26,7 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //-----------------------------------------------------------------------------
+#include <stdexcept>
 #include <msat/hri/HRI_subframe_identification.h>
 #include <cstring>
 #include <ctime>
@@ -66,7 +67,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
       std::cerr << "Unknown satellite id : " << std::hex
            << satellite_indicator[0] << satellite_indicator[1]
            << std::dec << std::endl;
-      throw;
+      throw std::runtime_error("Unknown satellite id");
     }
   }
   else
@@ -74,7 +75,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
     std::cerr << "Unknown satellite id : " << std::hex
          << satellite_indicator[0] << satellite_indicator[1]
          << std::dec << std::endl;
-    throw;
+    throw std::runtime_error("Unknown satellite id");
   }
 
   year = (int) conv.i2_from_buff((const unsigned char *) hsi+2);
diff --git a/msat/hri/HRI_subframe_label.cpp b/msat/hri/HRI_subframe_label.cpp
index 54b5015..cbc6671 100644
--- a/msat/hri/HRI_subframe_label.cpp
+++ b/msat/hri/HRI_subframe_label.cpp
@@ -26,6 +26,7 @@
 //  Foundation, Inc., 59 Temple Place, Suite 330, Boston, MA  02111-1307  USA
 //
 //-----------------------------------------------------------------------------
+#include <stdexcept>
 #include <msat/hri/HRI_subframe_label.h>
 #include <string>
 
@@ -204,7 +205,7 @@ std::string HRI_subframe_label::format_code( )
   else
   {
     std::cerr << "Unknown format code in HRI read" << std::endl;
-    throw;
+    throw std::runtime_error("Unknown format code in HRI read");
   }
 
   if (is_IR_present( )) tmp += "I";
-- 
2.43.0


From aaeb2efcceea3d179d5d270848168086b3f7b8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 10/55] fix: report short reads of HRI frames instead of using
 a zeroed frame

---
 msat/hri/HRI.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index 2b8f858..de08b62 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -519,7 +519,7 @@ void Hri::mod_getbuff( ifstream &hri, int offset )
   if (hri.fail())
   {
     std::cerr << "Read failed." << std::endl;
-    return;
+    throw std::runtime_error("Read failed.");
   }
 
   memcpy(chk_sync, mod_framebuff+offset, 4);
@@ -544,7 +544,7 @@ void Hri::getbuff( ifstream &hri )
   if (hri.fail())
   {
     std::cerr << "Read failed." << std::endl;
-    return;
+    throw std::runtime_error("Read failed.");
   }
   memcpy(chk_sync, framebuff, 4);
   if (chk_sync[0] != 0x0C05 && (chk_sync[1] & 255) != 0xDF)
-- 
2.43.0


From 7a79cb90121b7505fc9ee2fc6843e4f87d4e6a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:16 +0000
Subject: [PATCH 11/55] fix: bound every HRIT header record by the bytes that
 are left

A record of length 0 looped forever, a longer one than the header read past its
end, and a segment quality record without an image structure one dereferenced a
null pointer.
---
 msat/hrit/MSG_header.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index 66a44cb..8147b6f 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -99,6 +99,11 @@ void MSG_header::read_from( std::ifstream &in )
   total_header_length = get_ui4(primary_header+4);
   data_field_length   = get_ui8(primary_header+8);
   filesize = data_field_length/8+total_header_length;
+  if (total_header_length < MSG_HEADER_PRIMARY_LEN)
+  {
+    std::cerr << "Error: Total Header Length invalid." << std::endl;
+    throw std::runtime_error("Total Header Length invalid.");
+  }
   size_t hsize = total_header_length-MSG_HEADER_PRIMARY_LEN;
   hbuff = new unsigned char_1[hsize];
   if (!hbuff)
@@ -119,6 +124,13 @@ void MSG_header::read_from( std::ifstream &in )
   size_t hqlen = 0;
   while (left)
   {
+    // Every header record starts with a type byte and its own length
+    hunk_size = left < 3 ? 0 : (size_t) get_ui2(pnt+1);
+    if (hunk_size < 3 || hunk_size > left)
+    {
+      std::cerr << "Error: Header record length invalid." << std::endl;
+      throw std::runtime_error("Header record length invalid.");
+    }
     switch(*pnt)
     {
       case MSG_HEADER_IMAGE_STRUCTURE:
@@ -208,6 +220,13 @@ void MSG_header::read_from( std::ifstream &in )
         left = left - MSG_SEGMENT_ID_LEN;
         break;
       case MSG_HEADER_IMAGE_SEGMENT_LINE_QUALITY:
+        if (!image_structure ||
+            hunk_size < (size_t) 3 + image_structure->number_of_lines *
+                        MSG_SEGMENT_QUALITY_RECORD_LEN)
+        {
+          std::cerr << "Error: Segment Quality Header mismatch." << std::endl;
+          throw std::runtime_error("Segment Quality Header mismatch.");
+        }
         segment_quality = new MSG_header_segment_quality;
         segment_quality->read_from(pnt, image_structure->number_of_lines);
         hqlen = get_ui2(pnt+1);
-- 
2.43.0


From ea6f4270847dcd006c0711f0553effcb91d33251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 12/55] fix: terminate the ancillary text, which is used as a C
 string

---
 msat/hrit/MSG_header_ancillary_text.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_header_ancillary_text.cpp b/msat/hrit/MSG_header_ancillary_text.cpp
index f84423b..dd72226 100644
--- a/msat/hrit/MSG_header_ancillary_text.cpp
+++ b/msat/hrit/MSG_header_ancillary_text.cpp
@@ -59,7 +59,7 @@ void MSG_header_ancillary_text::read_from( unsigned const char_1 *buff )
     std::cerr << "Header Length : " << h_length << std::endl;
     throw std::runtime_error("Data Function Header length invalid.");
   }
-  ancillary_text = new char_1[h_length];
+  ancillary_text = new char_1[h_length+1];
   if (!ancillary_text)
   {
     std::cerr << "Memory error in MSG_header_ancillary_text." << std::endl;
@@ -67,6 +67,7 @@ void MSG_header_ancillary_text::read_from( unsigned const char_1 *buff )
     throw std::runtime_error("Memory error in MSG_header_ancillary_text.");
   }
   memcpy(ancillary_text, buff+3, h_length);
+  ancillary_text[h_length] = 0;
   return;
 }
 
-- 
2.43.0


From b5ed02b39c53d632ef5c188d396d602b7381d7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 13/55] fix: release HRIT header records on errors and when a
 header is read again

---
 msat/hrit/MSG_header.cpp | 41 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_header.cpp b/msat/hrit/MSG_header.cpp
index 8147b6f..bef2739 100644
--- a/msat/hrit/MSG_header.cpp
+++ b/msat/hrit/MSG_header.cpp
@@ -29,6 +29,7 @@
 
 #include <stdexcept>
 #include <cstring>
+#include <memory>
 
 #include <msat/hrit/MSG_header.h>
 
@@ -77,6 +78,26 @@ void MSG_header::read_from( std::ifstream &in )
   unsigned char_1 primary_header[MSG_HEADER_PRIMARY_LEN];
   unsigned char_1 *hbuff;
 
+  // Forget the header that was read before, if any
+  delete image_structure;
+  image_structure = 0;
+  delete image_navigation;
+  image_navigation = 0;
+  delete image_data_function;
+  image_data_function = 0;
+  delete annotation;
+  annotation = 0;
+  delete timestamp;
+  timestamp = 0;
+  delete ancillary_text;
+  ancillary_text = 0;
+  delete key;
+  key = 0;
+  delete segment_id;
+  segment_id = 0;
+  delete segment_quality;
+  segment_quality = 0;
+
   check_endianess( );
   in.read((char_1 *) primary_header, MSG_HEADER_PRIMARY_LEN);
   if (in.fail( ))
@@ -106,6 +127,7 @@ void MSG_header::read_from( std::ifstream &in )
   }
   size_t hsize = total_header_length-MSG_HEADER_PRIMARY_LEN;
   hbuff = new unsigned char_1[hsize];
+  std::unique_ptr<unsigned char_1[]> hbuff_owner(hbuff);
   if (!hbuff)
   {
     std::cerr << "Memory allocation error in MSG_header." << std::endl
@@ -140,6 +162,8 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("Image Structure Header mismatch.");
         }
+        delete image_structure;
+        image_structure = 0;
         image_structure = new MSG_header_image_struct;
         image_structure->read_from(pnt);
         pnt = pnt + MSG_IMAGE_STRUCTURE_LEN;
@@ -152,6 +176,8 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("Image Navigation Header mismatch.");
         }
+        delete image_navigation;
+        image_navigation = 0;
         image_navigation = new MSG_header_image_navig;
         image_navigation->read_from(pnt);
         pnt = pnt + MSG_IMAGE_NAVIGATION_LEN;
@@ -159,6 +185,8 @@ void MSG_header::read_from( std::ifstream &in )
         break;
       case MSG_HEADER_IMAGE_DATA_FUNCTION:
         hunk_size = (size_t) get_ui2(pnt+1);
+        delete image_data_function;
+        image_data_function = 0;
         image_data_function = new MSG_header_image_datafunc;
         image_data_function->read_from(pnt);
         pnt = pnt + hunk_size;
@@ -171,6 +199,8 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("Annotation Header mismatch.");
         }
+        delete annotation;
+        annotation = 0;
         annotation = new MSG_header_annotation;
         annotation->read_from(pnt);
         pnt = pnt + MSG_ANNOTATION_LEN;
@@ -183,6 +213,8 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("Timestamp Header mismatch.");
         }
+        delete timestamp;
+        timestamp = 0;
         timestamp = new MSG_header_timestamp;
         timestamp->read_from(pnt);
         pnt = pnt + MSG_TIMESTAMP_LEN;
@@ -190,6 +222,8 @@ void MSG_header::read_from( std::ifstream &in )
         break;
       case MSG_HEADER_ANCILLARY_TEXT:
         hunk_size = (size_t) get_ui2(pnt+1);
+        delete ancillary_text;
+        ancillary_text = 0;
         ancillary_text = new MSG_header_ancillary_text;
         ancillary_text->read_from(pnt);
         pnt = pnt + hunk_size;
@@ -202,6 +236,8 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("Key Header mismatch.");
         }
+        delete key;
+        key = 0;
         key = new MSG_header_key;
         key->read_from(pnt);
         pnt = pnt + MSG_KEY_LEN;
@@ -214,6 +250,8 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Header Length: " << get_ui2(pnt+1) << std::endl;
           throw std::runtime_error("Segment Id Header mismatch.");
         }
+        delete segment_id;
+        segment_id = 0;
         segment_id = new MSG_header_segment_id;
         segment_id->read_from(pnt);
         pnt = pnt + MSG_SEGMENT_ID_LEN;
@@ -227,6 +265,8 @@ void MSG_header::read_from( std::ifstream &in )
           std::cerr << "Error: Segment Quality Header mismatch." << std::endl;
           throw std::runtime_error("Segment Quality Header mismatch.");
         }
+        delete segment_quality;
+        segment_quality = 0;
         segment_quality = new MSG_header_segment_quality;
         segment_quality->read_from(pnt, image_structure->number_of_lines);
         hqlen = get_ui2(pnt+1);
@@ -240,7 +280,6 @@ void MSG_header::read_from( std::ifstream &in )
         break;
       }
    }
-   delete [ ] hbuff;
    return;
 }
 
-- 
2.43.0


From c1956c51a0b37eef9d77d3183f95d399cac78b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 14/55] fix: initialise the components of a data field that is
 read on construction

---
 msat/hrit/MSG_data.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 7326919..e95eeb1 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -67,6 +67,13 @@ MSG_data::MSG_data( )
 
 MSG_data::MSG_data( std::ifstream &in, MSG_header &header)
 {
+  key_message  = 0;
+  gts_message  = 0;
+  text_message = 0;
+  prologue     = 0;
+  epilogue     = 0;
+  image        = 0;
+  sdsprologue  = 0;
   read_from(in, header);
 }
 
-- 
2.43.0


From 46a688646d542a80d47cbb171031708cbcce7012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 15/55] fix: release the HRIT data field buffer when reading it
 fails

---
 msat/hrit/MSG_data.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index e95eeb1..f661296 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -28,6 +28,7 @@
 //-----------------------------------------------------------------------------
 
 #include <stdexcept>
+#include <memory>
 #include <string>
 #include <fstream>
 #include <msat/hrit/MSG_data.h>
@@ -93,6 +94,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
   size_t dsize;
   size_t dpos;
   unsigned char_1 *dbuff = 0;
+  std::unique_ptr<unsigned char_1[]> dbuff_owner;
   unsigned char_1 *dpnt = 0;
 
   typecode = header.f_typecode;
@@ -103,6 +105,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
       dsize = header.data_field_length / 8;
       dbuff = new unsigned char_1[dsize];
+      dbuff_owner.reset(dbuff);
       in.read((char *) dbuff, dsize);
       if (in.fail( ))
       {
@@ -133,6 +136,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
       dsize = header.data_field_length / 8;
       dbuff = new unsigned char_1[dsize];
+      dbuff_owner.reset(dbuff);
       in.read((char *) dbuff, dsize);
       if (in.fail( ))
       {
@@ -154,6 +158,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
       dsize = header.data_field_length / 8;
       dbuff = new unsigned char_1[dsize];
+      dbuff_owner.reset(dbuff);
       in.read((char *) dbuff, dsize);
       if (in.fail( ))
       {
@@ -170,6 +175,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
       dsize = header.data_field_length / 8;
       dbuff = new unsigned char_1[dsize];
+      dbuff_owner.reset(dbuff);
       in.read((char *) dbuff, dsize);
       if (in.fail( ))
       {
@@ -185,6 +191,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       dsize = header.data_field_length / 8;
 
       dbuff = new unsigned char_1[dsize];
+      dbuff_owner.reset(dbuff);
       in.read((char *) dbuff, dsize);
       if (in.fail( ))
       {
@@ -241,6 +248,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
     case MSG_FILE_REPEAT_CYCLE_EPILOGUE:
       dsize = header.data_field_length / 8;
       dbuff = new unsigned char_1[dsize];
+      dbuff_owner.reset(dbuff);
       in.read((char *) dbuff, dsize);
       if (in.fail( ))
       {
@@ -278,6 +286,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
       dsize = header.data_field_length / 8;
       dbuff = new unsigned char_1[dsize];
+      dbuff_owner.reset(dbuff);
       in.read((char *) dbuff, dsize);
       if (in.fail( ))
       {
@@ -303,8 +312,6 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       break;
   }
 
-  if (dbuff) delete [ ] dbuff;
-
   return;
 }
 
-- 
2.43.0


From ee953b8a2eef21bafff56086c14fdaffbb38b3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 16/55] fix: count the samples, not the bytes, of an
 uncompressed image segment

---
 msat/hrit/MSG_data.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index f661296..5aac600 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -115,8 +115,8 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
 
       if (header.image_structure->compression_flag == MSG_NO_COMPRESSION)
       {
-        image->len = dsize;
-        image->data = (MSG_SAMPLE *) ( new char[dsize] );
+        image->len = dsize / sizeof(MSG_SAMPLE);
+        image->data = new MSG_SAMPLE[image->len + 1];
         memcpy(image->data, dbuff, dsize);
       }
       else
-- 
2.43.0


From 8770802ea9ad32b31ba079366184538e731435c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:15 +0000
Subject: [PATCH 17/55] fix: do not decode HRIT data fields that lack the bytes
 or headers they need

---
 msat/hrit/MSG_data.cpp | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 5aac600..34e23e1 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -98,6 +98,22 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
   unsigned char_1 *dpnt = 0;
 
   typecode = header.f_typecode;
+  if (typecode == MSG_FILE_IMAGE_DATA)
+  {
+    if (!header.image_structure)
+      throw std::runtime_error("HRIT image data without image structure header.");
+    if (header.image_structure->compression_flag != MSG_NO_COMPRESSION &&
+        !header.segment_id)
+      throw std::runtime_error("HRIT image data without segment id header.");
+  }
+  else if (typecode == MSG_FILE_GTS_MESSAGE ||
+           typecode == MSG_FILE_REPEAT_CYCLE_PROLOGUE ||
+           typecode == MSG_FILE_REPEAT_CYCLE_EPILOGUE ||
+           typecode == MSG_FILE_BINARY_MESSAGE)
+  {
+    if (!header.annotation)
+      throw std::runtime_error("HRIT data field without annotation header.");
+  }
   switch (typecode)
   {
     case MSG_FILE_IMAGE_DATA:
@@ -202,6 +218,11 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
       {
 
+        if (dsize < (size_t) MSG_SATELLITE_STATUS_LEN +
+                    MSG_IMAGE_ACQUISITION_LEN + MSG_CELESTIAL_EVENTS_LEN +
+                    MSG_IMAGE_DESCRIPTION_LEN + MSG_DATA_RADIOMETRIC_PROC_LEN +
+                    MSG_GEOMETRIC_PROCESSING_LEN)
+          throw std::runtime_error("HRIT prologue is too short.");
         prologue = new MSG_data_level_15_header;
 
 
@@ -231,6 +252,10 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
                       != std::string::npos)
       {
         dpnt = dbuff;
+        // 46 bytes of common header, then a record giving its own length
+        if (dsize < 46 + 8 || get_ui4(dbuff+46+4) < 8 ||
+            get_ui4(dbuff+46+4) > dsize - 46)
+          throw std::runtime_error("SGS prologue is too short.");
         sdsprologue = new MSG_data_SGS_header;
         dpos = sdsprologue->read_from(dpnt);
         dpnt += dpos;
@@ -259,6 +284,11 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
       if (header.annotation->product_id_1.find("MSG") != std::string::npos)
       {
 
+        if (dsize < (size_t) 1 + MSG_IMAGE_PRODUCT_STATS_LEN +
+                    MSG_NAVIGATION_EXTR_RESULT_LEN +
+                    MSG_RADIOMETRIC_QUALITY_LEN + MSG_GEOMETRIC_QUALITY_LEN +
+                    MSG_TIMELINESS_COMPLETENESS_LEN)
+          throw std::runtime_error("HRIT epilogue is too short.");
         epilogue = new MSG_data_level_15_trailer;
 
         dpnt = dbuff+1;
@@ -300,7 +330,7 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
         outname += ".bin";
         os.open(outname.c_str( ));
         if (!os.good())
-          throw std::runtime_error("");
+          throw std::runtime_error("Cannot write " + outname);
         os.write((char *) dbuff, (size_t) dsize);
         os.close( );
       }
-- 
2.43.0


From 309f0ae2ed50ee1f8b8cdf2e407e0e5815bfc3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 18/55] fix: compute the reflectance of channels 1, 2, 3 and 12
 instead of always throwing

The sun elevation bound is a bound of the divisor, not the reflectance.
---
 msat/hrit/MSG_data_RadiometricProc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index b2c2aa5..e90696d 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -665,7 +665,7 @@ float radiance_to_reflectance(int chnum, float radiance,
                               int hour, int minute,
                               float lat, float lon)
 {
-  if (chnum != 1 || chnum != 2 || chnum != 3 || chnum != 12)
+  if (chnum != 1 && chnum != 2 && chnum != 3 && chnum != 12)
   {
     std::cerr << "Wrong channel number : " << chnum << std::endl;
     throw std::runtime_error("Wrong channel number");
@@ -681,6 +681,6 @@ float radiance_to_reflectance(int chnum, float radiance,
   double cos_sza = msat::facts::cos_sol_za(year, month, day, hour, minute, lat, lon);
   // Use cos(80°) as lower bound, to avoid division by zero
   if (cos_sza < cos80)
-    return cos80;
+    cos_sza = cos80;
   return 100.0 * radiance / tr / cos_sza;
 }
-- 
2.43.0


From fa636ec93ef0c61cb9914188fc7e3172b4091021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 19/55] fix: parse any projection name of the image navigation
 header safely

---
 msat/hrit/MSG_header_image_navig.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/msat/hrit/MSG_header_image_navig.cpp b/msat/hrit/MSG_header_image_navig.cpp
index 93805dc..63f06f5 100644
--- a/msat/hrit/MSG_header_image_navig.cpp
+++ b/msat/hrit/MSG_header_image_navig.cpp
@@ -35,10 +35,17 @@
 MSG_header_image_navig::MSG_header_image_navig( )
 {
   satellite_h = 42164.0;
+  subsatellite_longitude = 0;
+  projection_plane = 0;
+  projection_longitude = 0;
 }
 
 MSG_header_image_navig::MSG_header_image_navig( unsigned const char_1 *buff )
 {
+  satellite_h = 42164.0;
+  subsatellite_longitude = 0;
+  projection_plane = 0;
+  projection_longitude = 0;
   read_from(buff);
 }
 
@@ -46,8 +53,9 @@ MSG_header_image_navig::~MSG_header_image_navig( ) { }
 
 void MSG_header_image_navig::read_from( unsigned const char_1 *buff )
 {
-  char_1 projection_name[32];
+  char_1 projection_name[33];
   memcpy(projection_name, buff+3, 32);
+  projection_name[32] = 0;
   column_scaling_factor = get_i4(buff+35);
   CFAC                  = column_scaling_factor;
   line_scaling_factor   = get_i4(buff+39);
@@ -70,10 +78,14 @@ void MSG_header_image_navig::read_from( unsigned const char_1 *buff )
     projection_name[5] = 0;
     pname = projection_name;
     tmp = strchr(projection_name+6, ',');
-    *(tmp) = 0;
+    if (tmp != NULL) *tmp++ = 0;
     sscanf(projection_name+6, "%f", &projection_plane);
-    *(strchr(tmp, ')')) = 0;
-    sscanf(tmp, "%f", &projection_longitude);
+    if (tmp != NULL)
+    {
+      char_1 *end = strchr(tmp, ')');
+      if (end != NULL) *end = 0;
+      sscanf(tmp, "%f", &projection_longitude);
+    }
   }
   else if (projection_name[0] == 'P' && projection_name[1] == 'S')
     pname = "PSD";
-- 
2.43.0


From 85d5af818f921d634f22d896c2bb538d9775ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:58 +0000
Subject: [PATCH 20/55] fix: do not return pointers into destroyed strings

---
 msat/hri/HRI.cpp           |  4 +++-
 msat/hrit/MSG_time_cds.cpp | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index de08b62..c7b1677 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -385,7 +385,9 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
 
 char * Hri::get_format( )
 {
-  return (char *) label.format_code( ).c_str( );
+  static std::string format_code;
+  format_code = label.format_code( );
+  return (char *) format_code.c_str( );
 }
 
 struct tm *Hri::get_datetime( )
diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index d47337a..63fbc85 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -122,7 +122,9 @@ std::string MSG_time_cds_short::get_timestring( ) const
 
 char_1 *MSG_time_cds_short::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timestring;
+  timestring = get_timestring( );
+  return (char_1 *) timestring.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds_short &h )
@@ -247,7 +249,9 @@ std::string MSG_time_cds_expanded::get_timestring( ) const
 
 char_1 *MSG_time_cds_expanded::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timestring;
+  timestring = get_timestring( );
+  return (char_1 *) timestring.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds_expanded &h )
@@ -310,7 +314,9 @@ std::string MSG_time_cds::get_timestring( ) const
 
 char_1 *MSG_time_cds::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timestring;
+  timestring = get_timestring( );
+  return (char_1 *) timestring.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_cds &h )
@@ -377,7 +383,9 @@ std::string MSG_time_generalized::get_timestring( ) const
 
 char_1 *MSG_time_generalized::get_timechar( )
 {
-  return (char_1 *) get_timestring( ).c_str( );
+  static std::string timestring;
+  timestring = get_timestring( );
+  return (char_1 *) timestring.c_str( );
 }
 
 std::ostream& operator<< ( std::ostream& os, const MSG_time_generalized &h )
-- 
2.43.0


From 4f4f2a2f53ace8fcd228a547076d9d4d38364e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 21/55] fix: decode HRI reals from their own 4 and 8 bytes

unsigned long is 8 bytes wide on LP64, so that the buffers were read past their
end and the low word of an 8-byte real was taken from beyond it.
---
 msat/hri/HRI_machine.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/msat/hri/HRI_machine.cpp b/msat/hri/HRI_machine.cpp
index c021e33..4ed531e 100644
--- a/msat/hri/HRI_machine.cpp
+++ b/msat/hri/HRI_machine.cpp
@@ -141,9 +141,9 @@ float HRI_machine::r4f_from_char5( const char *buff )
   return tmp;
 }
 
-static inline void leftshift(unsigned long *pnt, int n)
+static inline void leftshift(uint32_t *pnt, int n)
 {
-   register unsigned long hiw, low;
+   uint32_t hiw, low;
 
    hiw = pnt[0];
    low = pnt[1];
@@ -159,9 +159,9 @@ static inline void leftshift(unsigned long *pnt, int n)
    return;
 }
 
-static inline void rightshift(unsigned long *pnt, int n)
+static inline void rightshift(uint32_t *pnt, int n)
 {
-   register unsigned long hiw, low;
+   uint32_t hiw, low;
 
    hiw = pnt[0];
    low = pnt[1];
@@ -183,19 +183,19 @@ float HRI_machine::r4_from_buff( const unsigned char *buff )
         uint32_t i;
         float f;
     } uval;
-    unsigned long *pnt, sign, fraction;
+    uint32_t *pnt, sign, fraction;
     long exponent;
     unsigned char swp[4];
 
    if (isbig)
-     pnt = (unsigned long *) buff;
+     pnt = (uint32_t *) buff;
    else
    {
      swp[3] = buff[0];
      swp[2] = buff[1];
      swp[1] = buff[2];
      swp[0] = buff[3];
-     pnt = (unsigned long *) swp;
+     pnt = (uint32_t *) swp;
    }
 
    if ((pnt[0] & 0x7FFFFFFF) == 0)
@@ -234,7 +234,7 @@ float HRI_machine::r4_from_buff( const unsigned char *buff )
 double HRI_machine::r8_from_buff( const unsigned char *buff )
 {
     int idxh, idxl;
-    unsigned long tmp, sign, fraction[2], *pnt;
+    uint32_t tmp, sign, fraction[2], *pnt;
     union {
         uint32_t i[2];
         double d;
@@ -243,7 +243,7 @@ double HRI_machine::r8_from_buff( const unsigned char *buff )
     unsigned char swp[8];
 
    if (isbig)
-     pnt = (unsigned long *) buff;
+     pnt = (uint32_t *) buff;
    else
    {
      swp[3] = buff[0];
@@ -254,7 +254,7 @@ double HRI_machine::r8_from_buff( const unsigned char *buff )
      swp[6] = buff[5];
      swp[5] = buff[6];
      swp[4] = buff[7];
-     pnt = (unsigned long *) swp;
+     pnt = (uint32_t *) swp;
    }
 
    if (isbig) { idxl = 0; idxh = 1; }
-- 
2.43.0


From 5ba413b86d38b5e8c40af90ab383872d10f11999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:47 +0000
Subject: [PATCH 22/55] fix: report exceptions of the GDAL drivers instead of
 unwinding GDAL

---
 gdal/grib/grib.cpp               | 16 ++++++++++++----
 gdal/reflectance/cos_sol_za.cpp  |  6 +++++-
 gdal/reflectance/jday.cpp        |  6 +++++-
 gdal/reflectance/reflectance.cpp | 11 +++++++++--
 gdal/reflectance/sat_za.cpp      |  6 +++++-
 gdal/utils.cpp                   | 11 +++++++++++
 gdal/utils.h                     |  8 ++++++++
 gdal/xrit/rasterband.cpp         |  6 +++++-
 gdal/xrit/xrit.cpp               |  5 ++++-
 9 files changed, 64 insertions(+), 11 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 47aece5..4b66a1a 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -61,7 +61,7 @@ public:
     }
 
     CPLErr IReadBlock(int xblock, int yblock, void *buf) override
-	{
+	try {
 		if (xblock != 0 || yblock != 0)
 		{
 			CPLError(CE_Failure, CPLE_AppDefined, "Invalid block number");
@@ -75,6 +75,9 @@ public:
 			return CE_Failure;
 		}
 		return CE_None;
+	} catch (...) {
+		msat::gdal::report_exception();
+		return CE_Failure;
 	}
 };
 
@@ -146,7 +149,8 @@ public:
 			tr[2] = 0.0;
 			tr[4] = 0.0;
 			return CE_None;
-		} catch (griberror& e) {
+		} catch (...) {
+			msat::gdal::report_exception();
 			return CE_Failure;
 		}
     }
@@ -198,7 +202,7 @@ GRIBRasterBand::GRIBRasterBand(GRIBDataset* ds, int idx /*, GDALDataType dt */)
 }
 
 GDALDataset* GRIBOpen(GDALOpenInfo* info)
-{
+try {
     // We want a real file
 #if GDAL_VERSION_MAJOR >= 2
     if (info->fpL == NULL) return NULL;
@@ -227,6 +231,9 @@ GDALDataset* GRIBOpen(GDALOpenInfo* info)
     if (!ds->init()) return NULL;
 
     return msat::gdal::add_extras(ds.release(), info);
+} catch (...) {
+    msat::gdal::report_exception();
+    return NULL;
 }
 
 #if 0
@@ -864,7 +871,8 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
         grib.write(pszFilename);
 
         return (GDALDataset*)GDALOpen(pszFilename, GA_ReadOnly);
-    } catch (griberror& e) {
+    } catch (...) {
+        msat::gdal::report_exception();
         return nullptr;
     }
 }
diff --git a/gdal/reflectance/cos_sol_za.cpp b/gdal/reflectance/cos_sol_za.cpp
index db91b69..f89ad2a 100644
--- a/gdal/reflectance/cos_sol_za.cpp
+++ b/gdal/reflectance/cos_sol_za.cpp
@@ -2,6 +2,7 @@
 #include "pixeltolatlon.h"
 #include <msat/gdal/const.h>
 #include <msat/facts.h>
+#include "gdal/utils.h"
 #include <ogr_spatialref.h>
 #include <msat/hrit/MSG_channel.h>
 #include <string>
@@ -51,7 +52,7 @@ public:
     const char* GetUnitType() override { return ""; }
 
     CPLErr IReadBlock(int xblock, int yblock, void *buf) override
-    {
+    try {
         // Precompute pixel georeferentiation
         std::vector<double> lats(nBlockXSize * nBlockYSize);
         std::vector<double> lons(nBlockXSize * nBlockYSize);
@@ -78,6 +79,9 @@ public:
         }
 
         return CE_None;
+    } catch (...) {
+        msat::gdal::report_exception();
+        return CE_Failure;
     }
 };
 
diff --git a/gdal/reflectance/jday.cpp b/gdal/reflectance/jday.cpp
index b074ddd..2360ab0 100644
--- a/gdal/reflectance/jday.cpp
+++ b/gdal/reflectance/jday.cpp
@@ -2,6 +2,7 @@
 #include "pixeltolatlon.h"
 #include <msat/gdal/const.h>
 #include <msat/facts.h>
+#include "gdal/utils.h"
 #include <ogr_spatialref.h>
 #include <msat/hrit/MSG_channel.h>
 #include <string>
@@ -41,12 +42,15 @@ public:
     const char* GetUnitType() override { return "day"; }
 
     CPLErr IReadBlock(int xblock, int yblock, void *buf) override
-    {
+    try {
         // Return the same julian day for every pixel
         int16_t* dest = (int16_t*) buf;
         for (int i = 0; i < nBlockXSize * nBlockYSize; ++i)
             dest[i] = jday;
         return CE_None;
+    } catch (...) {
+        msat::gdal::report_exception();
+        return CE_Failure;
     }
 };
 
diff --git a/gdal/reflectance/reflectance.cpp b/gdal/reflectance/reflectance.cpp
index a715aea..e5452fd 100644
--- a/gdal/reflectance/reflectance.cpp
+++ b/gdal/reflectance/reflectance.cpp
@@ -3,6 +3,7 @@
 #include <msat/auto_arr_ptr.h>
 #include <msat/gdal/const.h>
 #include <msat/facts.h>
+#include "gdal/utils.h"
 #include <ogr_spatialref.h>
 //#include <msat/hrit/MSG_data_RadiometricProc.h>
 #include <msat/hrit/MSG_channel.h>
@@ -128,7 +129,7 @@ SingleChannelReflectanceRasterBand::~SingleChannelReflectanceRasterBand()
 }
 
 CPLErr SingleChannelReflectanceRasterBand::IReadBlock(int xblock, int yblock, void *buf)
-{
+try {
     // Read the raw data
     std::vector<double> raw(nBlockXSize * nBlockYSize);
     if (source_rb->RasterIO(GF_Read, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw.data(), nBlockXSize, nBlockYSize, GDT_Float64, 0, 0) == CE_Failure)
@@ -165,6 +166,9 @@ CPLErr SingleChannelReflectanceRasterBand::IReadBlock(int xblock, int yblock, vo
     }
 
     return CE_None;
+} catch (...) {
+    msat::gdal::report_exception();
+    return CE_Failure;
 }
 
 Reflectance39RasterBand::Reflectance39RasterBand(ReflectanceDataset* ds, int idx)
@@ -207,7 +211,7 @@ Reflectance39RasterBand::~Reflectance39RasterBand()
 }
 
 CPLErr Reflectance39RasterBand::IReadBlock(int xblock, int yblock, void *buf)
-{
+try {
     // Read the IR 3.9 data
     std::vector<double> raw039(nBlockXSize * nBlockYSize);
     if (source_ir039->RasterIO(GF_Read, xblock * nBlockXSize, yblock * nBlockYSize, nBlockXSize, nBlockYSize, raw039.data(), nBlockXSize, nBlockYSize, GDT_Float64, 0, 0) == CE_Failure)
@@ -312,6 +316,9 @@ CPLErr Reflectance39RasterBand::IReadBlock(int xblock, int yblock, void *buf)
     }
 
     return CE_None;
+} catch (...) {
+    msat::gdal::report_exception();
+    return CE_Failure;
 }
 
 
diff --git a/gdal/reflectance/sat_za.cpp b/gdal/reflectance/sat_za.cpp
index da40a80..a55aed3 100644
--- a/gdal/reflectance/sat_za.cpp
+++ b/gdal/reflectance/sat_za.cpp
@@ -2,6 +2,7 @@
 #include "pixeltolatlon.h"
 #include <msat/gdal/const.h>
 #include <msat/facts.h>
+#include "gdal/utils.h"
 #include <ogr_spatialref.h>
 #include <msat/hrit/MSG_channel.h>
 #include <string>
@@ -37,7 +38,7 @@ public:
     const char* GetUnitType() override { return ""; }
 
     CPLErr IReadBlock(int xblock, int yblock, void *buf) override
-    {
+    try {
         // Precompute pixel georeferentiation
         std::vector<double> lats(nBlockXSize * nBlockYSize);
         std::vector<double> lons(nBlockXSize * nBlockYSize);
@@ -64,6 +65,9 @@ public:
         }
 
         return CE_None;
+    } catch (...) {
+        msat::gdal::report_exception();
+        return CE_Failure;
     }
 };
 
diff --git a/gdal/utils.cpp b/gdal/utils.cpp
index 6e0f524..7639f36 100644
--- a/gdal/utils.cpp
+++ b/gdal/utils.cpp
@@ -13,6 +13,17 @@ using namespace std;
 namespace msat {
 namespace gdal {
 
+void report_exception() noexcept
+{
+    try {
+        throw;
+    } catch (std::exception& e) {
+        CPLError(CE_Failure, CPLE_AppDefined, "%s", e.what());
+    } catch (...) {
+        // Exceptions of other types are reported where they are raised
+    }
+}
+
 GDALDataset* add_extras(GDALDataset* src, GDALOpenInfo* info)
 {
 #if GDAL_VERSION_MAJOR >= 2
diff --git a/gdal/utils.h b/gdal/utils.h
index 049e389..02d31ed 100644
--- a/gdal/utils.h
+++ b/gdal/utils.h
@@ -18,6 +18,14 @@ namespace gdal {
  */
 GDALDataset* add_extras(GDALDataset* src, GDALOpenInfo* info);
 
+/**
+ * Report the exception being handled with CPLError.
+ *
+ * GDAL is not meant to be unwound by exceptions, so the functions that it
+ * calls back need to catch and report them all.
+ */
+void report_exception() noexcept;
+
 }
 }
 #endif
diff --git a/gdal/xrit/rasterband.cpp b/gdal/xrit/rasterband.cpp
index c1a2cb0..4f63be0 100644
--- a/gdal/xrit/rasterband.cpp
+++ b/gdal/xrit/rasterband.cpp
@@ -2,6 +2,7 @@
 #include "dataset.h"
 #include <msat/gdal/const.h>
 #include <msat/facts.h>
+#include "gdal/utils.h"
 #include <stdint.h>
 
 namespace msat {
@@ -69,7 +70,7 @@ const char* XRITRasterBand::GetUnitType()
 }
 
 CPLErr XRITRasterBand::IReadBlock(int xblock, int yblock, void *buf)
-{
+try {
     if (xblock != 0)
     {
         CPLError(CE_Failure, CPLE_AppDefined, "Invalid block number");
@@ -99,6 +100,9 @@ CPLErr XRITRasterBand::IReadBlock(int xblock, int yblock, void *buf)
     }
 
     return CE_None;
+} catch (...) {
+    msat::gdal::report_exception();
+    return CE_Failure;
 }
 
 double XRITRasterBand::GetOffset(int* pbSuccess)
diff --git a/gdal/xrit/xrit.cpp b/gdal/xrit/xrit.cpp
index 76620d8..807bc72 100644
--- a/gdal/xrit/xrit.cpp
+++ b/gdal/xrit/xrit.cpp
@@ -16,7 +16,7 @@ namespace xrit {
 GDALDataset* XRITOpen(GDALOpenInfo* info);
 
 GDALDataset* XRITOpen(GDALOpenInfo* info)
-{
+try {
     // Se if it looks like a XRIT filename
     if (!msat::xrit::isValid(info->pszFilename))
         return NULL;
@@ -75,6 +75,9 @@ GDALDataset* XRITOpen(GDALOpenInfo* info)
         if (!ds->init()) return NULL;
         return msat::gdal::add_extras(ds.release(), info);
     }
+} catch (...) {
+    msat::gdal::report_exception();
+    return NULL;
 }
 
 }
-- 
2.43.0


From fc5aa6ff813b38774feb0fcf4baffc547b6b9fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 23/55] fix: release the source datasets when a computed
 dataset cannot be created

---
 gdal/reflectance/pixeltolatlon.cpp |  6 ++++++
 gdal/reflectance/reflectance.cpp   |  6 ++++--
 gdal/utils.cpp                     | 11 ++++++-----
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/gdal/reflectance/pixeltolatlon.cpp b/gdal/reflectance/pixeltolatlon.cpp
index 35fcdb2..7663ded 100644
--- a/gdal/reflectance/pixeltolatlon.cpp
+++ b/gdal/reflectance/pixeltolatlon.cpp
@@ -19,6 +19,12 @@ PixelToLatlon::PixelToLatlon(GDALDataset* ds)
     latlon = proj->CloneGeogCS();
     latlon->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
     toLatLon = OGRCreateCoordinateTransformation(proj, latlon);
+    if (!toLatLon)
+    {
+        delete latlon;
+        delete proj;
+        throw std::runtime_error("cannot transform coordinates of the input dataset to latitude and longitude");
+    }
 #if GDAL_VERSION_MAJOR >= 3
     toLatLon->SetEmitErrors(false);
 #endif
diff --git a/gdal/reflectance/reflectance.cpp b/gdal/reflectance/reflectance.cpp
index e5452fd..74bc5f5 100644
--- a/gdal/reflectance/reflectance.cpp
+++ b/gdal/reflectance/reflectance.cpp
@@ -29,6 +29,10 @@ ReflectanceDataset::~ReflectanceDataset()
 
 void ReflectanceDataset::add_source(GDALDataset* ds, bool take_ownership)
 {
+    // Own ds right away, to release it also when it turns out to be unsuitable
+    if (take_ownership)
+        owned_datasets.insert(ds);
+
     for (int i = 1; i <= ds->GetRasterCount(); ++i)
     {
         GDALRasterBand* rb = ds->GetRasterBand(i);
@@ -41,8 +45,6 @@ void ReflectanceDataset::add_source(GDALDataset* ds, bool take_ownership)
         add_info(ds, "ReflectanceDataset");
 
         sources[id - 1] = rb;
-        if (take_ownership)
-            owned_datasets.insert(ds);
     }
 }
 
diff --git a/gdal/utils.cpp b/gdal/utils.cpp
index 7639f36..a4768bd 100644
--- a/gdal/utils.cpp
+++ b/gdal/utils.cpp
@@ -7,6 +7,8 @@
 #include "gdal/reflectance/cos_sol_za.h"
 #include "gdal/reflectance/jday.h"
 #include "utils.h"
+#include <memory>
+#include <stdexcept>
 
 using namespace std;
 
@@ -31,6 +33,9 @@ GDALDataset* add_extras(GDALDataset* src, GDALOpenInfo* info)
     if (idx == -1) return src;
     std::string val(CPLParseNameValue(info->papszOpenOptions[idx], nullptr));
 
+    // From here on src is replaced by its wrapper: release it on all errors
+    std::unique_ptr<GDALDataset> source(src);
+
     if (val == "reflectance")
     {
         GDALRasterBand* rb = src->GetRasterBand(1);
@@ -42,23 +47,19 @@ GDALDataset* add_extras(GDALDataset* src, GDALOpenInfo* info)
             throw std::runtime_error("IR 0.39 reflectance cannot yet be computed via MSAT_COMPUTE open option");
 
         unique_ptr<msat::utils::ReflectanceDataset> rds(new msat::utils::ReflectanceDataset(channel_id));
-        rds->add_source(src, true);
+        rds->add_source(source.release(), true);
         rds->init_rasterband();
         return rds.release();
     } else if (val == "sat_za") {
         unique_ptr<msat::utils::SatZADataset> rds(new msat::utils::SatZADataset(src));
-        delete src;
         return rds.release();
     } else if (val == "cos_sol_za") {
         unique_ptr<msat::utils::CosSolZADataset> rds(new msat::utils::CosSolZADataset(src));
-        delete src;
         return rds.release();
     } else if (val == "jday") {
         unique_ptr<msat::utils::JDayDataset> rds(new msat::utils::JDayDataset(src));
-        delete src;
         return rds.release();
     } else {
-        delete src;
         CPLError(CE_Failure, CPLE_AppDefined, "Unsupported value '%s' for MSAT_COMPUTE", val.c_str());
         return nullptr;
     }
-- 
2.43.0


From 88f11f7ba95d5092a89cfd9ab0b6f5f72407de5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 24/55] fix: do not calibrate or place samples outside of their
 table and of the scanline

---
 gdal/xrit/rasterband.cpp               | 11 +++++++++--
 gdal/xrit/rasterband.h                 |  1 +
 msat/hrit/MSG_data_RadiometricProc.cpp |  6 ++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/gdal/xrit/rasterband.cpp b/gdal/xrit/rasterband.cpp
index 4f63be0..a04aa9e 100644
--- a/gdal/xrit/rasterband.cpp
+++ b/gdal/xrit/rasterband.cpp
@@ -9,7 +9,7 @@ namespace msat {
 namespace xrit {
 
 XRITRasterBand::XRITRasterBand(XRITDataset* ds, int idx)
-    : xds(ds), calibration(0)
+    : xds(ds), calibration(0), calibration_size(0)
 {
     poDS = ds;
     nBand = idx;
@@ -50,6 +50,7 @@ bool XRITRasterBand::init(MSG_data& PRO_data, MSG_data& EPI_data, MSG_header& he
     {
         int bpp = header.image_structure->number_of_bits_per_pixel;
         calibration = PRO_data.prologue->radiometric_proc.get_calibration(channel_id, bpp);
+        calibration_size = (size_t)1 << bpp;
     }
 
     if (linear)
@@ -78,6 +79,11 @@ try {
     }
 
     size_t linestart = xds->da.line_start(yblock);
+    if (linestart > (size_t)nBlockXSize || xds->da.columns > nBlockXSize - linestart)
+    {
+        CPLError(CE_Failure, CPLE_AppDefined, "Scanline does not fit the reference grid");
+        return CE_Failure;
+    }
 
     if (linear)
     {
@@ -91,7 +97,8 @@ try {
             fbuf[i] = 0.0;
         for (size_t i = 0; i < xds->da.columns; ++i)
         {
-            float res = calibration[rawbuf[i]];
+            // A sample wider than the bits per pixel has no calibrated value
+            float res = rawbuf[i] < calibration_size ? calibration[rawbuf[i]] : 0;
             if (res < 0 || isnan(res)) res = 0;
             fbuf[linestart + i] = res;
         }
diff --git a/gdal/xrit/rasterband.h b/gdal/xrit/rasterband.h
index 4c1ad79..7269149 100644
--- a/gdal/xrit/rasterband.h
+++ b/gdal/xrit/rasterband.h
@@ -18,6 +18,7 @@ public:
     bool linear;
     int channel_id;
     float* calibration;
+    size_t calibration_size;
 
     XRITRasterBand(XRITDataset* ds, int idx);
     ~XRITRasterBand();
diff --git a/msat/hrit/MSG_data_RadiometricProc.cpp b/msat/hrit/MSG_data_RadiometricProc.cpp
index e90696d..0a16038 100644
--- a/msat/hrit/MSG_data_RadiometricProc.cpp
+++ b/msat/hrit/MSG_data_RadiometricProc.cpp
@@ -577,6 +577,10 @@ std::ostream& operator<< ( std::ostream& os, MSG_data_RadiometricProc &t )
 float *MSG_data_RadiometricProc::get_calibration(int channel, int bpp)
 {
   float *calib;
+  if (channel < 1 || channel > 12)
+    throw std::runtime_error("Wrong channel number");
+  if (bpp < 0 || bpp > 16)
+    throw std::runtime_error("Wrong number of bits per pixel");
   int ncal = (int) pow(2.0, bpp);
 
   calib = new float[ncal];
@@ -626,6 +630,8 @@ float *MSG_data_RadiometricProc::get_calibration(int channel, int bpp)
 
 void MSG_data_RadiometricProc::get_slope_offset(int channel, double& slope, double& offset, bool& scalesToInt)
 {
+  if (channel < 1 || channel > 12)
+    throw std::runtime_error("Wrong channel number");
   if (channel > 3 && channel < 12)
   {
     const double cold_A[8]   = { 0.9959,  0.9963,  0.9991,  0.9996,
-- 
2.43.0


From 88502b831a88bc179651d958e0d0f330457d3b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 25/55] fix: let GDAL error handlers raise while exceptions are
 reported

---
 gdal/utils.cpp | 2 +-
 gdal/utils.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/gdal/utils.cpp b/gdal/utils.cpp
index a4768bd..4013a57 100644
--- a/gdal/utils.cpp
+++ b/gdal/utils.cpp
@@ -15,7 +15,7 @@ using namespace std;
 namespace msat {
 namespace gdal {
 
-void report_exception() noexcept
+void report_exception()
 {
     try {
         throw;
diff --git a/gdal/utils.h b/gdal/utils.h
index 02d31ed..0d1bf20 100644
--- a/gdal/utils.h
+++ b/gdal/utils.h
@@ -24,7 +24,7 @@ GDALDataset* add_extras(GDALDataset* src, GDALOpenInfo* info);
  * GDAL is not meant to be unwound by exceptions, so the functions that it
  * calls back need to catch and report them all.
  */
-void report_exception() noexcept;
+void report_exception();
 
 }
 }
-- 
2.43.0


From 2cefa9180e2b4f2b5c85f0797cf299b5ce479f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:28 +0000
Subject: [PATCH 26/55] fix: check the headers and size of the segments before
 using them

---
 msat/xrit/dataaccess.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/msat/xrit/dataaccess.cpp b/msat/xrit/dataaccess.cpp
index 57889c4..b00f0b0 100644
--- a/msat/xrit/dataaccess.cpp
+++ b/msat/xrit/dataaccess.cpp
@@ -24,6 +24,7 @@
 #include <msat/xrit/fileaccess.h>
 #include <msat/hrit/MSG_HRIT.h>
 #include <stdexcept>
+#include <memory>
 
 using namespace std;
 
@@ -66,6 +67,11 @@ void DataAccess::read_file(const std::string& file, MSG_header& head, MSG_data&
 
 void DataAccess::scanSegment(const MSG_header& header)
 {
+    if (!header.segment_id || !header.image_structure || !header.image_navigation)
+        throw std::runtime_error("segment without identification, structure or navigation header");
+    if (!header.image_structure->number_of_lines)
+        throw std::runtime_error("segment without lines");
+
     // Decoding information
     int totalsegs = header.segment_id->planned_end_segment_sequence_number;
     seglines = header.image_structure->number_of_lines;
@@ -90,17 +96,25 @@ void DataAccess::scan(const FileAccess& fa, MSG_data& pro, MSG_data& epi, MSG_he
     //p.activity("Reading prologue " + opts.prologueFile());
     read_file(fa.prologueFile(), PRO_head, pro);
 
+    if (!pro.prologue)
+        throw std::runtime_error(fa.prologueFile() + ": not a prologue file");
+
     // Read epilogue
     MSG_header EPI_head;
     //p.activity("Reading epilogue " + opts.epilogueFile());
     read_file(fa.epilogueFile(), EPI_head, epi);
 
+    if (!epi.epilogue)
+        throw std::runtime_error(fa.epilogueFile() + ": not an epilogue file");
+
     // Sort the segment names by their index
     vector<string> segfiles = fa.segmentFiles();
     for (const auto& i: segfiles)
     {
         //p.activity("Scanning segment " + *i);
         read_file(i, header);
+        if (!header.segment_id)
+            throw std::runtime_error(i + ": segment without identification header");
         if (header.segment_id->data_field_format == MSG_NO_FORMAT)
             throw std::runtime_error(i + ": product dumped in binary format");
 
@@ -179,13 +193,17 @@ MSG_data* DataAccess::segment(size_t idx) const
         // Load the segment
         // ProgressTask p("Reading segment " + segnames[idx]);
         MSG_header header;
-        scache new_scache;
-        new_scache.segment = new MSG_data;
-        new_scache.segno = idx;
-        read_file(segnames[idx].c_str(), header, *new_scache.segment);
+        std::unique_ptr<MSG_data> data(new MSG_data);
+        read_file(segnames[idx].c_str(), header, *data);
+        if (!data->image || data->image->len < npixperseg)
+            throw std::runtime_error(segnames[idx] + ": segment has less samples than expected");
 
         // Put it in the front
+        scache new_scache;
+        new_scache.segment = data.get();
+        new_scache.segno = idx;
         segcache.push_front(new_scache);
+        data.release();
     } else {
         // The segment is in the cache: bring it to the front
         scache tmp = *i;
-- 
2.43.0


From 6361511eddb3808fb7df85175f28610ae0079809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 27/55] fix: release the glob results when the file lookup
 fails

---
 msat/xrit/fileaccess.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/msat/xrit/fileaccess.cpp b/msat/xrit/fileaccess.cpp
index ad68e24..ddbcaf6 100644
--- a/msat/xrit/fileaccess.cpp
+++ b/msat/xrit/fileaccess.cpp
@@ -178,6 +178,18 @@ void FileAccess::ensureComplete() const
 		throw std::runtime_error("timing is missing");
 }
 
+namespace {
+
+// Release the results of a successful glob() at the end of the scope
+struct GlobFree
+{
+    glob_t& globbuf;
+    GlobFree(glob_t& globbuf) : globbuf(globbuf) {}
+    ~GlobFree() { globfree(&globbuf); }
+};
+
+}
+
 std::string FileAccess::prologueFile() const
 {
   std::string filename = directory
@@ -195,12 +207,12 @@ std::string FileAccess::prologueFile() const
 
   if ((glob(filename.c_str(), GLOB_DOOFFS, NULL, &globbuf)) != 0)
     throw std::runtime_error("No such file(s)");
+  GlobFree release(globbuf);
 
   if (globbuf.gl_pathc > 1)
     throw std::runtime_error("Non univoque prologue file.... Do not trust calibration.");
 
 	string res(globbuf.gl_pathv[1]);
-  globfree(&globbuf);
   return res;
 }
 
@@ -221,12 +233,12 @@ std::string FileAccess::epilogueFile() const
 
   if ((glob(filename.c_str(), GLOB_DOOFFS, NULL, &globbuf)) != 0)
     throw std::runtime_error("No such file(s)");
+  GlobFree release(globbuf);
 
   if (globbuf.gl_pathc > 1)
     throw std::runtime_error("Non univoque prologue file.... Do not trust calibration.");
 
 	string res(globbuf.gl_pathv[1]);
-  globfree(&globbuf);
   return res;
 }
 
@@ -246,11 +258,11 @@ std::vector<std::string> FileAccess::segmentFiles() const
 
     if ((glob(filename.c_str( ), GLOB_DOOFFS, NULL, &globbuf)) != 0)
         throw std::runtime_error("No such file(s)");
+    GlobFree release(globbuf);
 
     std::vector<std::string> res;
     for (size_t i = 0; i < globbuf.gl_pathc; ++i)
         res.push_back(globbuf.gl_pathv[i+1]);
-    globfree(&globbuf);
     return res;
 }
 
-- 
2.43.0


From 3f1d149ff347c226eb707ead36a8c754306257b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 28/55] fix: report every failure of GRIB creation instead of
 returning a partial file

---
 gdal/grib/grib.cpp | 37 +++++++++++++++++++++++++++----------
 gdal/grib/utils.h  | 13 +++++++++++--
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/gdal/grib/grib.cpp b/gdal/grib/grib.cpp
index 4b66a1a..e21c9ea 100644
--- a/gdal/grib/grib.cpp
+++ b/gdal/grib/grib.cpp
@@ -431,7 +431,11 @@ struct CreateGRIB2 : public CreateGRIB
         // (see /usr/share/grib_api/definitions/grib2/template.3.90.def)
 
         double gt[6];
-        src->GetGeoTransform(gt);
+        if (src->GetGeoTransform(gt) != CE_None)
+        {
+            CPLError(CE_Failure, CPLE_AppDefined, "source dataset has no geotransform matrix");
+            return false;
+        }
         if (gt[2] != 0.0)
         {
             CPLError(CE_Failure, CPLE_AppDefined, "3rd element of geotransform matrix is not zero");
@@ -506,11 +510,11 @@ struct CreateGRIB2 : public CreateGRIB
         int y0 = nearbyint(line_offset - gt[3] / -gt[5]);
         //fprintf(stderr, "xo %d yo %d\n", x0, y0);
         //fprintf(stderr, "xo %d co %d t0 %f t1 %f\n", x0, column_offset, padfTransform[0], padfTransform[1]);
-        grib.set_long_oneof("geography.xo", x0,
-                "Xo", x0,
+        grib.set_long_oneof("geography.xo", (long)x0,
+                "Xo", (long)x0,
                 NULL);
-        grib.set_long_oneof("geography.yo", y0,
-                "Yo", y0,
+        grib.set_long_oneof("geography.yo", (long)y0,
+                "Yo", (long)y0,
                 NULL);
 
         grib.set_long("geography.dx", dx);
@@ -615,7 +619,8 @@ struct CreateGRIB2 : public CreateGRIB
 
     bool create() override
     {
-        grib.new_from_samples(NULL, "GRIB2");
+        if (grib.new_from_samples(NULL, "GRIB2") != CE_None)
+            return false;
 
         if (!CreateGRIB::create())
             return false;
@@ -686,7 +691,11 @@ struct CreateGRIB1 : public CreateGRIB
         // (see /usr/share/grib_api/definitions/grib2/template.3.90.def)
 
         double gt[6];
-        src->GetGeoTransform(gt);
+        if (src->GetGeoTransform(gt) != CE_None)
+        {
+            CPLError(CE_Failure, CPLE_AppDefined, "source dataset has no geotransform matrix");
+            return false;
+        }
         if (gt[2] != 0.0)
         {
             CPLError(CE_Failure, CPLE_AppDefined, "3rd element of geotransform matrix is not zero");
@@ -789,7 +798,8 @@ struct CreateGRIB1 : public CreateGRIB
 
     bool create() override
     {
-        grib.new_from_samples(NULL, "GRIB1");
+        if (grib.new_from_samples(NULL, "GRIB1") != CE_None)
+            return false;
 
         if (!CreateGRIB::create())
             return false;
@@ -809,7 +819,7 @@ struct CreateGribECMWF : public CreateGRIB1
 
     bool identification_section() override
     {
-        CreateGRIB1::identification_section();
+        if (!CreateGRIB1::identification_section()) return false;
 
         /* 24 = Satellite image simulation (grib1/localDefinitionNumber.98.table)  */
         grib.set_long("localDefinitionNumber", 24);
@@ -850,6 +860,12 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
         if (templateName == NULL)
             templateName = "msat/wmo";
 
+        if (src->GetRasterCount() < 1 || !src->GetSpatialRef())
+        {
+            CPLError(CE_Failure, CPLE_AppDefined, "source dataset has no raster bands or no spatial reference");
+            return nullptr;
+        }
+
         Grib grib;
         if (strcmp(templateName, "msat/wmo") == 0)
         {
@@ -868,7 +884,8 @@ GDALDataset* GRIBCreateCopy(const char* pszFilename, GDALDataset* src,
             return nullptr;
         }
 
-        grib.write(pszFilename);
+        if (grib.write(pszFilename) != CE_None)
+            return nullptr;
 
         return (GDALDataset*)GDALOpen(pszFilename, GA_ReadOnly);
     } catch (...) {
diff --git a/gdal/grib/utils.h b/gdal/grib/utils.h
index c5605d4..8344714 100644
--- a/gdal/grib/utils.h
+++ b/gdal/grib/utils.h
@@ -47,6 +47,7 @@ struct Grib
 #ifdef TRACE_GRIBAPI
     FILE* trace = nullptr;
     #define trace(...) do {\
+            if (!trace) break; \
             fprintf(trace, "GH %p: ", static_cast<const void*>(gh)); \
             fprintf(trace, __VA_ARGS__); \
             fprintf(trace, "\n"); \
@@ -273,12 +274,16 @@ struct Grib
         va_list ap;
         int err = GRIB_NOT_FOUND;
             
-        for (va_start(ap, val); key != NULL; key = va_arg(ap, const char*), val = va_arg(ap, long))
+        va_start(ap, val);
+        while (key != NULL)
         {
             err = grib_set_long(gh, key, val);
             trace("GRIB_CHECK(grib_set_long(h, \"%s\", %ld), %d);", key, val, err);
             if (err == GRIB_SUCCESS)
                 break;
+            key = va_arg(ap, const char*);
+            if (key != NULL)
+                val = va_arg(ap, long);
         }
 
         va_end(ap);
@@ -339,7 +344,11 @@ struct Grib
         }
         trace("written to file %s", filename.c_str());
 
-        fclose(out);
+        if (fclose(out) != 0)
+        {
+            CPLError(CE_Failure, CPLE_FileIO, "cannot write to file %s", filename.c_str());
+            return CE_Failure;
+        }
         trace("flushed");
         return CE_None;
     }
-- 
2.43.0


From 5119066f2c441c8a06d71ea87fb6d6b814f59dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 29/55] fix: own the samples of each native line and unpack
 only the bytes they have

---
 msat/msg-native/MSG_native.cpp      | 22 ++++++++-------
 msat/msg-native/MSG_native_line.cpp | 42 ++++++++++++++++++++++++++---
 msat/msg-native/MSG_native_line.h   |  2 ++
 3 files changed, 53 insertions(+), 13 deletions(-)

diff --git a/msat/msg-native/MSG_native.cpp b/msat/msg-native/MSG_native.cpp
index cbaf9ef..f522144 100644
--- a/msat/msg-native/MSG_native.cpp
+++ b/msat/msg-native/MSG_native.cpp
@@ -90,9 +90,9 @@ void MSG_native::read( )
   trailer.read(in);
   in.seekg(datapos, std::ios::beg);
 
-  char bandsel[16];
+  char bandsel[16] = "";
   sscanf(header.mph_sph_header.mphinfo[39].c_str( ),
-         "%*s : %s", bandsel);
+         "%*s : %15s", bandsel);
   for (int i = 0; i < SEVIRI_CHANNELS; i ++)
   {
     if (bandsel[i] == 'X')
@@ -101,7 +101,7 @@ void MSG_native::read( )
       nchannels ++;
     }
   }
-  long nlines, ncols, startl, stopl, startc, stopc = 0;
+  long nlines = 0, ncols = 0, startl = 0, stopl = 0, startc = 0, stopc = 0;
   sscanf(header.mph_sph_header.mphinfo[40].c_str( ),
          "%*s : %ld", &startl);
   sscanf(header.mph_sph_header.mphinfo[41].c_str( ),
@@ -197,12 +197,13 @@ bool MSG_native::pgmdump(int ic, char *filename)
   {
     p->data.to_sample(&s, &ns);
     os.write((char *) s, ns*sizeof(short));
+    // Lines may have different sizes
+    delete [ ] s;
+    s = 0;
     p ++;
   }
   os.close( );
 
-  delete [ ] s;
-
   return true;
 }
 
@@ -226,16 +227,17 @@ unsigned short *MSG_native::data(int channel)
   long size = numberlines[channel]*numbercolumns[channel];
   long px = numbercolumns[channel];
 
-  unsigned short *s = new unsigned short[size];
-  unsigned short *sp;
-  long ns;
+  unsigned short *s = new unsigned short[size]();
 
   std::list <MSG_native_line>::iterator p = line[channel].begin( );
   int count = 0;
-  while (p != line[channel].end( ))
+  while (p != line[channel].end( ) && count < numberlines[channel])
   {
-    sp = s+count*px;
+    unsigned short *sp = 0;
+    long ns;
     p->data.to_sample(&sp, &ns);
+    memcpy(s+count*px, sp, (ns < px ? ns : px)*sizeof(unsigned short));
+    delete [ ] sp;
     p ++;
     count ++;
   }
diff --git a/msat/msg-native/MSG_native_line.cpp b/msat/msg-native/MSG_native_line.cpp
index 0af8541..6393de1 100644
--- a/msat/msg-native/MSG_native_line.cpp
+++ b/msat/msg-native/MSG_native_line.cpp
@@ -22,6 +22,7 @@
 //
 //-----------------------------------------------------------------------------
 
+#include <cstring>
 #include <stdexcept>
 #include <msat/msg-native/MSG_native_line.h>
 #include <msat/hrit/MSG_machine.h>
@@ -32,6 +33,28 @@ MSG_native_linedata::MSG_native_linedata( )
   datasize = 0;
 }
 
+MSG_native_linedata::MSG_native_linedata(const MSG_native_linedata &d)
+{
+  data_10bit = 0;
+  datasize = 0;
+  *this = d;
+}
+
+MSG_native_linedata& MSG_native_linedata::operator=(const MSG_native_linedata &d)
+{
+  if (this == &d) return *this;
+  unsigned char *copy = 0;
+  if (d.data_10bit)
+  {
+    copy = new unsigned char[d.datasize];
+    memcpy(copy, d.data_10bit, d.datasize);
+  }
+  delete [ ] data_10bit;
+  data_10bit = copy;
+  datasize = d.datasize;
+  return *this;
+}
+
 MSG_native_linedata::~MSG_native_linedata( )
 {
   if (data_10bit)
@@ -167,7 +190,7 @@ void MSG_native_linedata::to_sample(unsigned short **samples, long *nsample)
   unsigned short *ps = *samples;
   unsigned char  *pc = data_10bit;
   unsigned int ipos = 0;
-  while (ipos < datasize)
+  while (ipos + 5 <= datasize)
   {
     ps[0] = (((unsigned short) pc[0]      ) << 2) |
             (((unsigned short) pc[1]      ) >> 6);
@@ -181,6 +204,16 @@ void MSG_native_linedata::to_sample(unsigned short **samples, long *nsample)
     ipos += 5;
     ps   += 4;
   }
+  // Samples of the last, incomplete group
+  if (datasize - ipos >= 2)
+    ps[0] = (((unsigned short) pc[0]      ) << 2) |
+            (((unsigned short) pc[1]      ) >> 6);
+  if (datasize - ipos >= 3)
+    ps[1] = (((unsigned short) pc[1] &  63) << 4) |
+            (((unsigned short) pc[2]      ) >> 4);
+  if (datasize - ipos >= 4)
+    ps[2] = (((unsigned short) pc[2] &  15) << 6) |
+            (((unsigned short) pc[3]      ) >> 2);
   return;
 }
 
@@ -195,12 +228,14 @@ void MSG_native_line::read( std::ifstream &in )
     throw std::runtime_error("Read error from Native file: Packet Header.");
   }
   pkh.read_from(lbuf);
-  data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
-  if (data.datasize < 0)
+  if (pkh.gp_packet_header.PacketLength < 15u + header.lhlen)
   {
     std::cerr << "Read error from Native file: Packet Size." << std::endl;
     throw std::runtime_error("Read error from Native file: Packet Size.");
   }
+  delete [ ] data.data_10bit;
+  data.data_10bit = 0;
+  data.datasize = pkh.gp_packet_header.PacketLength - 15 - header.lhlen;
   data.data_10bit = new unsigned char[data.datasize];
   in.read((char *) lhbuf, header.lhlen);
   if (in.fail( ))
@@ -229,5 +264,6 @@ std::ostream& operator<< ( std::ostream& os, MSG_native_line &l )
             << ", line count " << l.header.LineNumberInGrid << std::endl;
   for (int i = 0; i < ns; i ++)
     os << p[i] << std::endl;
+  delete [ ] p;
   return os;
 }
diff --git a/msat/msg-native/MSG_native_line.h b/msat/msg-native/MSG_native_line.h
index fc36f3c..dc2b565 100644
--- a/msat/msg-native/MSG_native_line.h
+++ b/msat/msg-native/MSG_native_line.h
@@ -88,6 +88,8 @@ class MSG_native_lineheader {
 class MSG_native_linedata {
   public:
     MSG_native_linedata( );
+    MSG_native_linedata(const MSG_native_linedata &d);
+    MSG_native_linedata& operator=(const MSG_native_linedata &d);
     ~MSG_native_linedata( );
 
     void to_sample(unsigned short **samples, long *nsample);
-- 
2.43.0


From a5495197d51775e59e17377aa99f4cee420956c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 30/55] fix: bound the text fields of the U-MARF header

---
 msat/msg-native/MSG_native_header.cpp | 115 ++++++++++++++------------
 1 file changed, 62 insertions(+), 53 deletions(-)

diff --git a/msat/msg-native/MSG_native_header.cpp b/msat/msg-native/MSG_native_header.cpp
index b265978..3c5cb79 100644
--- a/msat/msg-native/MSG_native_header.cpp
+++ b/msat/msg-native/MSG_native_header.cpp
@@ -24,61 +24,70 @@
 #include <stdexcept>
 #include <msat/msg-native/MSG_native_header.h>
 
+#include <cstring>
+
+// Text fields have a fixed size and need not be terminated
+static std::string field(const unsigned char *buf, size_t offset, size_t size)
+{
+  const char *text = (const char *) buf + offset;
+  return std::string(text, strnlen(text, size));
+}
+
 void U_MARF_Header::read_from(const unsigned char *buf)
 {
-  mphinfo[0]   = (char *) buf;
-  mphinfo[1]   = (char *) buf+80;
-  mphinfo[2]   = (char *) buf+160;
-  mphinfo[3]   = (char *) buf+240;
-  mphinfo[4]   = (char *) buf+320;
-  mphinfo[5]   = (char *) buf+400;
-  mphinfo[6]   = (char *) buf+480;
-  mphinfo[6]  += (char *) buf+526;
-  mphinfo[7]   = (char *) buf+542;
-  mphinfo[7]  += (char *) buf+588;
-  mphinfo[8]   = (char *) buf+604;
-  mphinfo[8]  += (char *) buf+650;
-  mphinfo[9]   = (char *) buf+666;
-  mphinfo[9]  += (char *) buf+712;
-  mphinfo[10]  = (char *) buf+728;
-  mphinfo[10] += (char *) buf+774;
-  mphinfo[11]  = (char *) buf+2154;
-  mphinfo[12]  = (char *) buf+2234;
-  mphinfo[13]  = (char *) buf+2314;
-  mphinfo[14]  = (char *) buf+2394;
-  mphinfo[15]  = (char *) buf+2474;
-  mphinfo[16]  = (char *) buf+2554;
-  mphinfo[17]  = (char *) buf+2634;
-  mphinfo[18]  = (char *) buf+2714;
-  mphinfo[19]  = (char *) buf+2794;
-  mphinfo[20]  = (char *) buf+2874;
-  mphinfo[21]  = (char *) buf+2954;
-  mphinfo[22]  = (char *) buf+3034;
-  mphinfo[23]  = (char *) buf+3114;
-  mphinfo[24]  = (char *) buf+3194;
-  mphinfo[25]  = (char *) buf+3274;
-  mphinfo[26]  = (char *) buf+3354;
-  mphinfo[27]  = (char *) buf+3434;
-  mphinfo[28]  = (char *) buf+3514;
-  mphinfo[29]  = (char *) buf+3594;
-  mphinfo[30]  = (char *) buf+3674;
-  mphinfo[31]  = (char *) buf+3754;
-  mphinfo[32]  = (char *) buf+3834;
-  mphinfo[33]  = (char *) buf+3914;
-  mphinfo[34]  = (char *) buf+3994;
-  mphinfo[35]  = (char *) buf+4074;
-  mphinfo[36]  = (char *) buf+4154;
-  mphinfo[37]  = (char *) buf+4234;
-  mphinfo[38]  = (char *) buf+4314;
-  mphinfo[39]  = (char *) buf+4394;
-  mphinfo[40]  = (char *) buf+4474;
-  mphinfo[41]  = (char *) buf+4554;
-  mphinfo[42]  = (char *) buf+4634;
-  mphinfo[43]  = (char *) buf+4714;
-  mphinfo[44]  = (char *) buf+4794;
-  mphinfo[45]  = (char *) buf+4874;
-  mphinfo[46]  = (char *) buf+4954;
-  mphinfo[47]  = (char *) buf+5034;
+  mphinfo[0]   = field(buf, 0, 80);
+  mphinfo[1]   = field(buf, 80, 80);
+  mphinfo[2]   = field(buf, 160, 80);
+  mphinfo[3]   = field(buf, 240, 80);
+  mphinfo[4]   = field(buf, 320, 80);
+  mphinfo[5]   = field(buf, 400, 80);
+  mphinfo[6]   = field(buf, 480, 46);
+  mphinfo[6]  += field(buf, 526, 16);
+  mphinfo[7]   = field(buf, 542, 46);
+  mphinfo[7]  += field(buf, 588, 16);
+  mphinfo[8]   = field(buf, 604, 46);
+  mphinfo[8]  += field(buf, 650, 16);
+  mphinfo[9]   = field(buf, 666, 46);
+  mphinfo[9]  += field(buf, 712, 16);
+  mphinfo[10]  = field(buf, 728, 46);
+  mphinfo[10] += field(buf, 774, 16);
+  mphinfo[11]  = field(buf, 2154, 80);
+  mphinfo[12]  = field(buf, 2234, 80);
+  mphinfo[13]  = field(buf, 2314, 80);
+  mphinfo[14]  = field(buf, 2394, 80);
+  mphinfo[15]  = field(buf, 2474, 80);
+  mphinfo[16]  = field(buf, 2554, 80);
+  mphinfo[17]  = field(buf, 2634, 80);
+  mphinfo[18]  = field(buf, 2714, 80);
+  mphinfo[19]  = field(buf, 2794, 80);
+  mphinfo[20]  = field(buf, 2874, 80);
+  mphinfo[21]  = field(buf, 2954, 80);
+  mphinfo[22]  = field(buf, 3034, 80);
+  mphinfo[23]  = field(buf, 3114, 80);
+  mphinfo[24]  = field(buf, 3194, 80);
+  mphinfo[25]  = field(buf, 3274, 80);
+  mphinfo[26]  = field(buf, 3354, 80);
+  mphinfo[27]  = field(buf, 3434, 80);
+  mphinfo[28]  = field(buf, 3514, 80);
+  mphinfo[29]  = field(buf, 3594, 80);
+  mphinfo[30]  = field(buf, 3674, 80);
+  mphinfo[31]  = field(buf, 3754, 80);
+  mphinfo[32]  = field(buf, 3834, 80);
+  mphinfo[33]  = field(buf, 3914, 80);
+  mphinfo[34]  = field(buf, 3994, 80);
+  mphinfo[35]  = field(buf, 4074, 80);
+  mphinfo[36]  = field(buf, 4154, 80);
+  mphinfo[37]  = field(buf, 4234, 80);
+  mphinfo[38]  = field(buf, 4314, 80);
+  mphinfo[39]  = field(buf, 4394, 80);
+  mphinfo[40]  = field(buf, 4474, 80);
+  mphinfo[41]  = field(buf, 4554, 80);
+  mphinfo[42]  = field(buf, 4634, 80);
+  mphinfo[43]  = field(buf, 4714, 80);
+  mphinfo[44]  = field(buf, 4794, 80);
+  mphinfo[45]  = field(buf, 4874, 80);
+  mphinfo[46]  = field(buf, 4954, 80);
+  mphinfo[47]  = field(buf, 5034, 80);
   return;
 }
 
-- 
2.43.0


From 7df2b00634427dedc90cd25ba2859f305da085a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:24 +0000
Subject: [PATCH 31/55] fix: release the data field when another one is read

---
 msat/hrit/MSG_data.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 34e23e1..8b52f6f 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -97,6 +97,22 @@ void MSG_data::read_from( std::ifstream &in, MSG_header &header )
   std::unique_ptr<unsigned char_1[]> dbuff_owner;
   unsigned char_1 *dpnt = 0;
 
+  // Forget the data field that was read before, if any
+  delete key_message;
+  key_message = 0;
+  delete gts_message;
+  gts_message = 0;
+  delete text_message;
+  text_message = 0;
+  delete prologue;
+  prologue = 0;
+  delete epilogue;
+  epilogue = 0;
+  delete image;
+  image = 0;
+  delete sdsprologue;
+  sdsprologue = 0;
+
   typecode = header.f_typecode;
   if (typecode == MSG_FILE_IMAGE_DATA)
   {
-- 
2.43.0


From 960a68705ccb8f257a87f5668bc5f270ba5cac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:42 +0000
Subject: [PATCH 32/55] fix: GeoReferencer fails when a coordinate
 transformation cannot be created

---
 msat/gdal/dataset.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 5ca2320..5d0228f 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -212,12 +212,22 @@ CPLErr GeoReferencer::init(GDALDataset* ds)
     proj = osr->Clone();
     proj->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
     latlon = proj->CloneGeogCS();
+	if (!latlon)
+	{
+		CPLError(CE_Failure, CPLE_AppDefined, "no geographic coordinate system found in input dataset");
+		return CE_Failure;
+	}
     latlon->SetAxisMappingStrategy(OAMS_TRADITIONAL_GIS_ORDER);
     toLatLon = OGRCreateCoordinateTransformation(proj, latlon);
     fromLatLon = OGRCreateCoordinateTransformation(latlon, proj);
 
 	delete proj; proj = 0;
 	delete latlon; latlon = 0;
+	if (!toLatLon || !fromLatLon)
+	{
+		CPLError(CE_Failure, CPLE_AppDefined, "cannot transform the projection of the input dataset to lat,lon");
+		return CE_Failure;
+	}
 	return CE_None;
 }
 
-- 
2.43.0


From fcb8db49647cc15c87a87cc87f1450e4d10541ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:48 +0000
Subject: [PATCH 33/55] fix: recode scales to the requested size and fails when
 the crop window cannot be read

---
 msat/gdal/dataset.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msat/gdal/dataset.cpp b/msat/gdal/dataset.cpp
index 5d0228f..1fb330c 100644
--- a/msat/gdal/dataset.cpp
+++ b/msat/gdal/dataset.cpp
@@ -124,7 +124,16 @@ GDALDataset* recode(
 	translate.anSrcWin[2] = cropArea.bottomRight.column - cropArea.topLeft.column;
 	translate.anSrcWin[3] = cropArea.bottomRight.line - cropArea.topLeft.line;
 
+	// Scale to the requested size
+	std::string osx = std::to_string(sx), osy = std::to_string(sy);
+	if (sx != translate.anSrcWin[2] || sy != translate.anSrcWin[3])
+	{
+		translate.pszOXSize = osx.c_str();
+		translate.pszOYSize = osy.c_str();
+	}
+
 	GDALDataset* vds = translate.translate(ds);
+	if (!vds) return nullptr;
 
 	char** options = 0;
 	if (!opt1.empty()) options = CSLAddString(options, opt1.c_str());
-- 
2.43.0


From 7e1a76822f13559211464f3b6165f188ea356445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 34/55] fix: GDALTranslate::translate leaves the request as it
 is for the next dataset

---
 msat/gdal/gdaltranslate.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index d6a2d55..8c25562 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -38,6 +38,8 @@
 #include <ogr_spatialref.h>
 #include <vrtdataset.h>
 #include <ostream>
+#include <cstring>
+#include <vector>
 
 using namespace std;
 
@@ -110,6 +112,15 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
     // int                 iSrcFileArg = -1, iDstFileArg = -1;
     // int                 bCopySubDatasets = FALSE;
 
+    // Defaults are filled in from each source dataset: the request itself is
+    // left as it is
+    int                 anSrcWin[4];
+    memcpy(anSrcWin, this->anSrcWin, sizeof(anSrcWin));
+    int                 nBandCount = this->nBandCount;
+    int                 bDefBands = this->bDefBands;
+    int                 *panBandList = this->panBandList;
+    std::vector<int>    anAllBands;
+
     /* Check strict compilation and runtime library version as we use C++ API */
     if (! GDAL_CHECK_VERSION("GDALTranslate"))
         return NULL;
@@ -204,7 +215,8 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             return NULL;
         }
 
-        panBandList = (int *) CPLMalloc(sizeof(int)*nBandCount);
+        anAllBands.resize(nBandCount);
+        panBandList = anAllBands.data();
         for( i = 0; i < nBandCount; i++ )
             panBandList[i] = i+1;
     }
-- 
2.43.0


From 5f2477462ef3d75d684aabfb516ccfb9bfbfcf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 35/55] fix: keep the metadata and GCPs of a translation until
 it is destroyed

---
 msat/gdal/gdaltranslate.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/msat/gdal/gdaltranslate.cpp b/msat/gdal/gdaltranslate.cpp
index 8c25562..dfb6fa5 100644
--- a/msat/gdal/gdaltranslate.cpp
+++ b/msat/gdal/gdaltranslate.cpp
@@ -92,6 +92,12 @@ GDALTranslate::~GDALTranslate()
 {
     CPLFree( panBandList );
     CSLDestroy( papszCreateOptions );
+    CSLDestroy( papszMetadataOptions );
+    if( nGCPCount )
+    {
+        GDALDeinitGCPs( nGCPCount, pasGCPs );
+        CPLFree( pasGCPs );
+    }
 }
 
 /************************************************************************/
@@ -404,9 +410,6 @@ GDALDataset* GDALTranslate::translate(GDALDatasetH hDataset)
             pszGCPProjection = "";
 
         poVDS->SetGCPs( nGCPCount, pasGCPs, pszGCPProjection );
-
-        GDALDeinitGCPs( nGCPCount, pasGCPs );
-        CPLFree( pasGCPs );
     }
 
     else if( GDALGetGCPCount( hDataset ) > 0 )
@@ -591,8 +594,6 @@ static void AttachMetadata( GDALDatasetH hDS, char **papszMetadataOptions )
         GDALSetMetadataItem(hDS,pszKey,pszValue,NULL);
         CPLFree( pszKey );
     }
-
-    CSLDestroy( papszMetadataOptions );
 }
 
 void GDALTranslate::dump(std::ostream& out)
-- 
2.43.0


From b8e00a348114b43a7b91e0b25135829e4d474bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:23 +0000
Subject: [PATCH 36/55] fix: msat reports datasets and templates that cannot be
 read and frees the band list

---
 tools/msat.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tools/msat.cpp b/tools/msat.cpp
index 9f3ab6d..56a1450 100644
--- a/tools/msat.cpp
+++ b/tools/msat.cpp
@@ -611,6 +611,7 @@ int Msat::main()
                     continue;
                 }
 
+                CPLFree(translate.panBandList);
                 translate.panBandList = bands;
                 translate.nBandCount = band_count;
                 translate.bDefBands = TRUE;
@@ -665,10 +666,20 @@ int Msat::main()
 
             GDALDataset* vds = translate.translate(dataset.get());
             //translate.dump(cerr);
+            if (vds == NULL)
+            {
+                    cerr << CPLGetLastErrorMsg() << endl;
+                    return 1;
+            }
 
             if (!mdtemplate.empty())
             {
                     unique_ptr<GDALDataset> mdds((GDALDataset*)GDALOpen(mdtemplate.c_str(), GA_ReadOnly));
+                    if (mdds.get() == NULL)
+                    {
+                            cerr << CPLGetLastErrorMsg() << endl;
+                            return 1;
+                    }
 
                     // Copy metadata from mdds to vds
                     vds->SetDescription(mdds->GetDescription());
-- 
2.43.0


From 90cd1a07acde1cfec8741bec12027641ecad823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 37/55] fix: command-line tools report files they cannot read
 instead of aborting

---
 tools/hrit/XRIT2Image.cpp            | 12 ++++++++++--
 tools/msg-native/native2Image.cpp    | 10 +++++++++-
 tools/msg-native/nativedump.cpp      | 10 +++++++++-
 tools/omtp-ids/OpenMTP-IDS_sector.cc |  2 +-
 4 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 6aa8588..6b1c36b 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -178,8 +178,16 @@ int main(int argc, char *argv[ ])
                 << globbuf.gl_pathv[i+1] << std::endl;
       return 1;
     }
-    header[i].read_from(hrit);
-    msgdat[i].read_from(hrit, header[i]);
+    try
+    {
+      header[i].read_from(hrit);
+      msgdat[i].read_from(hrit, header[i]);
+    }
+    catch (std::exception &e)
+    {
+      std::cerr << globbuf.gl_pathv[i+1] << ": " << e.what( ) << std::endl;
+      return 1;
+    }
     hrit.close( );
     std::cout << header[i];
   }
diff --git a/tools/msg-native/native2Image.cpp b/tools/msg-native/native2Image.cpp
index 0c0b799..34558d6 100644
--- a/tools/msg-native/native2Image.cpp
+++ b/tools/msg-native/native2Image.cpp
@@ -73,7 +73,15 @@ int main(int argc, char **argv)
     return -1;
   }
 
-  native.read( );
+  try
+  {
+    native.read( );
+  }
+  catch (std::exception &e)
+  {
+    std::cerr << "Exit: " << e.what( ) << std::endl;
+    return -1;
+  }
 
   Magick::Image *image = new Magick::Image(native.pixels(ichn),
                          native.lines(ichn), "I", Magick::ShortPixel,
diff --git a/tools/msg-native/nativedump.cpp b/tools/msg-native/nativedump.cpp
index 6f5f621..d08412e 100644
--- a/tools/msg-native/nativedump.cpp
+++ b/tools/msg-native/nativedump.cpp
@@ -31,7 +31,15 @@ int main(int argc, char **argv)
   if (argc < 2) return 1;
   if (! native.open(argv[1])) return 1;
 
-  native.read( );
+  try
+  {
+    native.read( );
+  }
+  catch (std::exception &e)
+  {
+    std::cerr << "Exit: " << e.what( ) << std::endl;
+    return 1;
+  }
 
   std::cout << native;
 
diff --git a/tools/omtp-ids/OpenMTP-IDS_sector.cc b/tools/omtp-ids/OpenMTP-IDS_sector.cc
index 8bfc48b..5a22828 100644
--- a/tools/omtp-ids/OpenMTP-IDS_sector.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_sector.cc
@@ -171,7 +171,7 @@ main(int argc, char* argv[])
 	OpenMTP_IDS omtp_ids;
 	try {
 		omtp_ids = OpenMTP_IDS(argv[1]);
-	} catch (char* err) {
+	} catch (const char* err) {
 		std::cout << argv[0] << ": " << err << std::endl;
 		return EXIT_FAILURE;
 	}
-- 
2.43.0


From 5843a7ea29b6124e1aec3a8eddcae1134fe6ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 38/55] fix: dumping radiometric quality histograms with small
 counts divided by zero

---
 msat/hrit/MSG_data_RadiometricQuality.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_data_RadiometricQuality.cpp b/msat/hrit/MSG_data_RadiometricQuality.cpp
index 7a54295..504bf67 100644
--- a/msat/hrit/MSG_data_RadiometricQuality.cpp
+++ b/msat/hrit/MSG_data_RadiometricQuality.cpp
@@ -512,6 +512,6 @@ uint_4 maxistogram(uint_4 *istogram, int_4 len)
   uint_4 maxval = 0;
   for (int i = 0; i < len; i ++)
     if (maxval < istogram[i]) maxval = istogram[i];
-  if (maxval == 0) return 1;
+  if (maxval < 76) return 1;
   return maxval/76;
 }
-- 
2.43.0


From ca58cd4842eff0e99bd7011a8863b0568950c256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:58 +0000
Subject: [PATCH 39/55] fix: OpenMTP-IDS errors carry their message instead of
 a pointer into a destroyed string

---
 msat/omtp-ids/OpenMTP-IDS.cc         | 12 ++++++------
 msat/omtp-ids/OpenMTP-IDS.hh         |  3 ++-
 msat/omtp-ids/Record.cc              |  5 +++--
 msat/omtp-ids/ScanLine.cc            |  5 +++--
 tools/omtp-ids/OpenMTP-IDS_debug.cc  |  4 ++--
 tools/omtp-ids/OpenMTP-IDS_sector.cc | 11 +++++------
 tools/omtp-ids/OpenMTP-IDS_to_pgm.cc |  4 ++--
 tools/omtp-ids/OpenMTP-IDS_write.cc  |  4 ++--
 8 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index ce35df8..5b905fb 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -74,7 +74,7 @@ operator>>(std::istream& is,
 
 	is >> openmtp_ids.m_fileheader;
 	if (!is.good()) {
-		throw "failure while reading file header\n";
+		throw std::runtime_error("failure while reading file header");
 	}
 
 	// the first record was just read..
@@ -85,7 +85,7 @@ operator>>(std::istream& is,
 	for (unsigned i = 0; i < no_records; i++) {
 		is >> openmtp_ids.m_record[i];
 		if (!is.good()) {
-			throw "failure while reading record\n";
+			throw std::runtime_error("failure while reading record");
 		}
 	}
 
@@ -103,7 +103,7 @@ OpenMTP_IDS::read(const char* filename)
 		err += "could not open ";
 		err += filename;
 		err += " for reading";
-		throw err.c_str();
+		throw std::runtime_error(err);
 	}
 
 	is >> *this;
@@ -112,7 +112,7 @@ OpenMTP_IDS::read(const char* filename)
 		std::string err;
 		err += "error while reading ";
 		err += filename;
-		throw err.c_str();
+		throw std::runtime_error(err);
 	}
 
 	is.close();
@@ -129,7 +129,7 @@ OpenMTP_IDS::write(const char* filename)
 		err += "could not open ";
 		err += filename;
 		err += " for writing";
-		throw err.c_str();
+		throw std::runtime_error(err);
 	}
 
 	os << *this;
@@ -138,7 +138,7 @@ OpenMTP_IDS::write(const char* filename)
 		std::string err;
 		err += "error while writing ";
 		err += filename;
-		throw err.c_str();
+		throw std::runtime_error(err);
 	}
 
 	os.close();
diff --git a/msat/omtp-ids/OpenMTP-IDS.hh b/msat/omtp-ids/OpenMTP-IDS.hh
index 97dcc00..e477539 100644
--- a/msat/omtp-ids/OpenMTP-IDS.hh
+++ b/msat/omtp-ids/OpenMTP-IDS.hh
@@ -33,6 +33,7 @@
 // SYSTEM INCLUDES
 //
 #include <iosfwd>
+#include <stdexcept>
 #include <vector>
 
 // PROJECT INCLUDES
@@ -122,7 +123,7 @@ inline
 OpenMTP_IDS::OpenMTP_IDS(const char* filename)
 {
 	if (!read(filename)) {
-		throw "read failure";
+		throw std::runtime_error("read failure");
 	}
 }
 
diff --git a/msat/omtp-ids/Record.cc b/msat/omtp-ids/Record.cc
index 3e1caf1..e2f4c16 100644
--- a/msat/omtp-ids/Record.cc
+++ b/msat/omtp-ids/Record.cc
@@ -21,6 +21,7 @@
 // SYSTEM INCLUDES
 //
 #include <iostream>
+#include <stdexcept>
 
 // PROJECT INCLUDES
 //
@@ -65,7 +66,7 @@ operator>>(std::istream& is,
 
 	is >> record.m_recordheader;
 	if (!is.good()) {
-		throw "failure while reading record header\n";
+		throw std::runtime_error("failure while reading record header");
 	}
 
 	const int no_scanlines = record.m_recordheader.no_scanlines();
@@ -74,7 +75,7 @@ operator>>(std::istream& is,
 	for (int i = 0; i < no_scanlines; i++) {
 		is >> record.m_scanline[i];
 		if (!is.good()) {
-			throw "failure while reading scan line\n";
+			throw std::runtime_error("failure while reading scan line");
 		}
 	}
 
diff --git a/msat/omtp-ids/ScanLine.cc b/msat/omtp-ids/ScanLine.cc
index 3c85f2f..d15fe54 100644
--- a/msat/omtp-ids/ScanLine.cc
+++ b/msat/omtp-ids/ScanLine.cc
@@ -21,6 +21,7 @@
 // SYSTEM INCLUDES
 //
 #include <iostream>
+#include <stdexcept>
 
 // PROJECT INCLUDES
 //
@@ -72,7 +73,7 @@ operator>>(std::istream& is,
 
 	is >> scanline.m_lineheader;
 	if (!is.good()) {
-		throw "failure while reading line header\n";
+		throw std::runtime_error("failure while reading line header");
 	}
 
 	const int no_pixels = scanline.m_lineheader.no_pixels();
@@ -81,7 +82,7 @@ operator>>(std::istream& is,
 	for (int i = 0; i < no_pixels; i++) {
 		scanline.m_linepixel[i] = is.get();
 		if (!is.good()) {
-			throw "failure while reading line pixel\n";
+			throw std::runtime_error("failure while reading line pixel");
 		}
 	}
 
diff --git a/tools/omtp-ids/OpenMTP-IDS_debug.cc b/tools/omtp-ids/OpenMTP-IDS_debug.cc
index 5fe7a67..51488af 100644
--- a/tools/omtp-ids/OpenMTP-IDS_debug.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_debug.cc
@@ -59,8 +59,8 @@ main(int argc, char* argv[])
 	try {
 		OpenMTP_IDS openmtp(argv[1]);
 		openmtp.debug(std::cout);
-	} catch (const char* err) {
-		std::cout << argv[0] << ": " << err << std::endl;
+	} catch (const std::exception& err) {
+		std::cout << argv[0] << ": " << err.what() << std::endl;
 		return EXIT_FAILURE;
 	}
 
diff --git a/tools/omtp-ids/OpenMTP-IDS_sector.cc b/tools/omtp-ids/OpenMTP-IDS_sector.cc
index 5a22828..a0109c3 100644
--- a/tools/omtp-ids/OpenMTP-IDS_sector.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_sector.cc
@@ -171,12 +171,11 @@ main(int argc, char* argv[])
 	OpenMTP_IDS omtp_ids;
 	try {
 		omtp_ids = OpenMTP_IDS(argv[1]);
-	} catch (const char* err) {
-		std::cout << argv[0] << ": " << err << std::endl;
-		return EXIT_FAILURE;
-	}
-
-	if (!openmtp_ids_sector(omtp_ids)) {
+		if (!openmtp_ids_sector(omtp_ids)) {
+			return EXIT_FAILURE;
+		}
+	} catch (const std::exception& err) {
+		std::cout << argv[0] << ": " << err.what() << std::endl;
 		return EXIT_FAILURE;
 	}
 
diff --git a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
index 65be161..66e8b4a 100644
--- a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
@@ -188,8 +188,8 @@ main(int argc, char* argv[])
 	OpenMTP_IDS omtp_ids;
 	try {
 		omtp_ids = OpenMTP_IDS(argv[1]);
-	} catch (const char* err) {
-		std::cout << argv[0] << ": " << err << std::endl;
+	} catch (const std::exception& err) {
+		std::cout << argv[0] << ": " << err.what() << std::endl;
 		return EXIT_FAILURE;
 	}
 
diff --git a/tools/omtp-ids/OpenMTP-IDS_write.cc b/tools/omtp-ids/OpenMTP-IDS_write.cc
index 9f79cef..59044f7 100644
--- a/tools/omtp-ids/OpenMTP-IDS_write.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_write.cc
@@ -61,8 +61,8 @@ main(int argc, char* argv[])
 	try {
 		OpenMTP_IDS openmtp(argv[1]);
 		openmtp.write("test.omtp-ids");
-	} catch (const char* err) {
-		std::cout << argv[0] << ": " << err << std::endl;
+	} catch (const std::exception& err) {
+		std::cout << argv[0] << ": " << err.what() << std::endl;
 		return EXIT_FAILURE;
 	}
 
-- 
2.43.0


From 381ba4fb7f422670bee6c2e83222ae424acc7e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:33 +0000
Subject: [PATCH 40/55] fix: xritdump divided by zero on segments with a single
 sample value

---
 tools/hrit/xritdump.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/hrit/xritdump.cpp b/tools/hrit/xritdump.cpp
index d855111..68ef542 100644
--- a/tools/hrit/xritdump.cpp
+++ b/tools/hrit/xritdump.cpp
@@ -114,7 +114,7 @@ static void do_dump(const char* name)
                                 size_t px = x * da.columns / charx;
                                 size_t py = y * da.seglines / chary;
                                 MSG_SAMPLE s = d->image->data[py * da.columns + px];
-                                char c = aachars[(s-min) * aachars.size() / (max-min)];
+                                char c = max > min ? aachars[(s-min) * aachars.size() / (max-min)] : aachars[0];
                                 cout << c;
                         }
                         cout << endl;
@@ -141,7 +141,7 @@ static void do_dump(const char* name)
                 {
                         size_t px = x * comp_sx / charx;
                         MSG_SAMPLE s = buf[px];
-                        char c = aachars[(s-compmin) * aachars.size() / (compmax-compmin)];
+                        char c = compmax > compmin ? aachars[(s-compmin) * aachars.size() / (compmax-compmin)] : aachars[0];
                         cout << c;
                 }
                 cout << endl;
-- 
2.43.0


From 79b431631fe5d47d7235b9527a7090857868d6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:06 +0000
Subject: [PATCH 41/55] fix: a source without a projection is refused when
 sources are combined

---
 gdal/reflectance/base.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gdal/reflectance/base.cpp b/gdal/reflectance/base.cpp
index 843745a..030aa3f 100644
--- a/gdal/reflectance/base.cpp
+++ b/gdal/reflectance/base.cpp
@@ -43,7 +43,8 @@ void ProxyDataset::add_info(GDALDataset* ds, const std::string& dsname)
         nRasterXSize = ds->GetRasterXSize();
         nRasterYSize = ds->GetRasterYSize();
     } else {
-        if (!osr->IsSame(ds->GetSpatialRef()))
+        const OGRSpatialReference* other = ds->GetSpatialRef();
+        if (!other || !osr->IsSame(other))
             throw std::runtime_error(dsname + ": inconsistent projection definitions in source datasets");
         if (memcmp(geotransform, gt, 6 * sizeof(double)) != 0)
             throw std::runtime_error(dsname + ": inconsistent affine geotransform coefficients in source datasets");
-- 
2.43.0


From 21152ea6564f8cbca1b47857026b521b9a130182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:12 +0000
Subject: [PATCH 42/55] fix: generalized times are UTC, not the time zone of
 the machine

---
 msat/hrit/MSG_time_cds.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_time_cds.cpp b/msat/hrit/MSG_time_cds.cpp
index 63fbc85..f50c49c 100644
--- a/msat/hrit/MSG_time_cds.cpp
+++ b/msat/hrit/MSG_time_cds.cpp
@@ -355,7 +355,7 @@ size_t MSG_time_generalized::read_from( unsigned const char_1 *buff )
 
 time_t MSG_time_generalized::get_unixtime( )
 {
-  return mktime(&generalized_time);
+  return timegm(&generalized_time);
 }
 
 struct tm *MSG_time_generalized::get_timestruct( )
-- 
2.43.0


From 5ee8cc5488fe2cb821c6e345902221b3f3558499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:12 +0000
Subject: [PATCH 43/55] fix: the date of HRI images does not depend on the time
 zone of the machine

---
 msat/hri/HRI_subframe_identification.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI_subframe_identification.cpp b/msat/hri/HRI_subframe_identification.cpp
index a3d1a0f..8ae9714 100644
--- a/msat/hri/HRI_subframe_identification.cpp
+++ b/msat/hri/HRI_subframe_identification.cpp
@@ -84,7 +84,7 @@ void HRI_subframe_identification::readfrom( char *hsi )
   tmtime.tm_year = year-1900;
   tmtime.tm_mday = 1;
   tmtime.tm_hour = 12;
-  jtime = mktime(&tmtime) + (julian_day - 1) * 24 * 60 * 60;
+  jtime = timegm(&tmtime) + (julian_day - 1) * 24 * 60 * 60;
   tm1time = gmtime(&jtime);
   month = tm1time->tm_mon + 1;
   day   = tm1time->tm_mday;
-- 
2.43.0


From 584015104d724685556fe860ab06accd166693e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:40 +0000
Subject: [PATCH 44/55] fix: the longitude of the sub-satellite point was
 reported as a latitude

---
 msat/hrit/MSG_header_image_navig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hrit/MSG_header_image_navig.cpp b/msat/hrit/MSG_header_image_navig.cpp
index 63f06f5..50b7cd6 100644
--- a/msat/hrit/MSG_header_image_navig.cpp
+++ b/msat/hrit/MSG_header_image_navig.cpp
@@ -117,7 +117,7 @@ std::ostream& operator<< ( std::ostream& os, MSG_header_image_navig &h )
   switch (h.get_projection_code())
   {
     case MSG_PROJECTION_GEOS:
-      os << "Subsatellite Lat.   : " << h.subsatellite_longitude << std::endl;
+      os << "Subsatellite Long.  : " << h.subsatellite_longitude << std::endl;
       break;
     case MSG_PROJECTION_POLAR:
       os << "Projection plane    : " << h.projection_plane << std::endl
-- 
2.43.0


From 9c423536d53169e6188f6883fa8776cbfa425cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:06 +0000
Subject: [PATCH 45/55] fix: OpenMTP-IDS files whose header counts no records
 were read as four billion records

---
 msat/omtp-ids/OpenMTP-IDS.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index 5b905fb..a707395 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -77,6 +77,10 @@ operator>>(std::istream& is,
 		throw std::runtime_error("failure while reading file header");
 	}
 
+	if (openmtp_ids.m_fileheader.no_records() < 1) {
+		throw std::runtime_error("file header without records");
+	}
+
 	// the first record was just read..
 	const unsigned no_records =
 		openmtp_ids.m_fileheader.no_records() - 1;
-- 
2.43.0


From 486f49be4d31b50ef7fcbc1170f1bedf19421af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:06 +0000
Subject: [PATCH 46/55] fix: the last scan line was missing from all the scan
 lines of an OpenMTP-IDS file

---
 msat/omtp-ids/OpenMTP-IDS.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/omtp-ids/OpenMTP-IDS.cc b/msat/omtp-ids/OpenMTP-IDS.cc
index a707395..a0f127d 100644
--- a/msat/omtp-ids/OpenMTP-IDS.cc
+++ b/msat/omtp-ids/OpenMTP-IDS.cc
@@ -179,7 +179,7 @@ OpenMTP_IDS::scanline() const
 		last += m_record[i].scanline().size();
 	}
 
-	return scanline(0, last - 1);
+	return scanline(0, last);
 }
 
 // a scanline
-- 
2.43.0


From 567d3271f302385a7731be1fa56e8b9425deb409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:06 +0000
Subject: [PATCH 47/55] fix: OpenMTP-IDS_to_pgm reported failure when the last
 channel was written

---
 tools/omtp-ids/OpenMTP-IDS_to_pgm.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
index 66e8b4a..6ea8c1f 100644
--- a/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
+++ b/tools/omtp-ids/OpenMTP-IDS_to_pgm.cc
@@ -151,10 +151,10 @@ openmtp_ids_to_pgm(const OpenMTP_IDS& omtp_ids)
 	bool ret = false;
 
 	ret = write_channel_pgm(fh.vis_id(), omtp_ids);
-	ret = write_channel_pgm(fh.ir_id(),  omtp_ids);
-	ret = write_channel_pgm(fh.wv_id(),  omtp_ids);
+	ret |= write_channel_pgm(fh.ir_id(),  omtp_ids);
+	ret |= write_channel_pgm(fh.wv_id(),  omtp_ids);
 
-	return (! ret);
+	return ret;
 }
 
 // EXTERNAL REFERENCES
-- 
2.43.0


From e2c3b8cf829ce2a5edb451d78b140b9dcb4adcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:07 +0000
Subject: [PATCH 48/55] fix: empty fields of an xRIT file name: do not look
 before the start of the string

---
 msat/xrit/fileaccess.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/msat/xrit/fileaccess.cpp b/msat/xrit/fileaccess.cpp
index ddbcaf6..07313ce 100644
--- a/msat/xrit/fileaccess.cpp
+++ b/msat/xrit/fileaccess.cpp
@@ -44,10 +44,10 @@ static std::string underscoreit(const std::string& base, int final_len)
 
 static std::string deunderscore(const std::string& str)
 {
-    size_t pos = str.size() - 1;
-    while (pos > 0 && str[pos] == '_')
-        --pos;
-    return str.substr(0, pos + 1);
+    size_t size = str.size();
+    while (size > 1 && str[size - 1] == '_')
+        --size;
+    return str.substr(0, size);
 }
 
 // dir/res:prodid1:prodid2:time
-- 
2.43.0


From 129b25b56036fe160fd5bd1172948333bd574ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:58 +0000
Subject: [PATCH 49/55] fix: printing of a data field whose content was not
 read

---
 msat/hrit/MSG_data.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/msat/hrit/MSG_data.cpp b/msat/hrit/MSG_data.cpp
index 8b52f6f..326b466 100644
--- a/msat/hrit/MSG_data.cpp
+++ b/msat/hrit/MSG_data.cpp
@@ -369,22 +369,22 @@ std::ostream& operator<< ( std::ostream& os, MSG_data &h )
   switch (h.typecode)
   {
     case MSG_FILE_IMAGE_DATA:
-      os << *(h.image);
+      if (h.image) os << *(h.image);
       break;
     case MSG_FILE_GTS_MESSAGE:
-      os << *(h.gts_message);
+      if (h.gts_message) os << *(h.gts_message);
       break;
     case MSG_FILE_ALPHANUMERIC_TEXT:
-      os << *(h.text_message);
+      if (h.text_message) os << *(h.text_message);
       break;
     case MSG_FILE_ENCRYPTION_KEY_MESSAGE:
-      os << *(h.key_message);
+      if (h.key_message) os << *(h.key_message);
       break;
     case MSG_FILE_REPEAT_CYCLE_PROLOGUE:
-      os << *(h.prologue);
+      if (h.prologue) os << *(h.prologue);
       break;
     case MSG_FILE_REPEAT_CYCLE_EPILOGUE:
-      os << *(h.epilogue);
+      if (h.epilogue) os << *(h.epilogue);
       break;
     case MSG_FILE_DCP_MESSAGE:
       os << "DCP message." << std::endl;
-- 
2.43.0


From 9e39ef69fcad9e3b5c12428c50f1d6942ea2d650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:58 +0000
Subject: [PATCH 50/55] fix: XRIT2Image used segments without identification,
 structure or image

---
 tools/hrit/XRIT2Image.cpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/tools/hrit/XRIT2Image.cpp b/tools/hrit/XRIT2Image.cpp
index 6b1c36b..c5fdb57 100644
--- a/tools/hrit/XRIT2Image.cpp
+++ b/tools/hrit/XRIT2Image.cpp
@@ -194,6 +194,15 @@ int main(int argc, char *argv[ ])
 
   globfree(&globbuf);
 
+  for (int i = 0; i < nsegments; i ++)
+    if (!header[i].segment_id || !header[i].image_structure ||
+        !msgdat[i].image)
+    {
+      std::cerr << "Segment without identification, structure or image."
+                << std::endl;
+      return 1;
+    }
+
   if (header[0].segment_id->data_field_format == MSG_NO_FORMAT)
   {
     std::cout << "Product dumped in binary format." << std::endl;
@@ -207,7 +216,15 @@ int main(int argc, char *argv[ ])
     segsindexes[i] = -1;
 
   for (int i = 0; i < nsegments; i ++)
-    segsindexes[header[i].segment_id->sequence_number-1] = i;
+  {
+    int seg = header[i].segment_id->sequence_number-1;
+    if (seg < 0 || seg >= totalsegs)
+    {
+      std::cerr << "Segment out of the image." << std::endl;
+      return 1;
+    }
+    segsindexes[seg] = i;
+  }
 
   filename = resolution;
   filename = filename + "-" + productid1 + "-" + productid2 + "-" +
@@ -227,6 +244,12 @@ int main(int argc, char *argv[ ])
   size_t pos = 0;
   for (int i = 0; i < totalsegs; i ++)
   {
+    if (segsindexes[i] >= 0 &&
+        msgdat[segsindexes[i]].image->len < npixperseg)
+    {
+      std::cerr << "Segment with less samples than expected." << std::endl;
+      return 1;
+    }
     if (segsindexes[i] >= 0)
       memcpy(pixels+pos, msgdat[segsindexes[i]].image->data,
              npixperseg*sizeof(MSG_SAMPLE));
-- 
2.43.0


From c3b5fd103cb66cd296e1eabfe95549fe46f0223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:33 +0000
Subject: [PATCH 51/55] fix: HRI: failing to read the key frame of a Tecnavia
 file went unreported

---
 msat/hri/HRI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index c7b1677..11e9ce5 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -93,7 +93,7 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
       if (hri.fail())
       {
         std::cerr << "Read failed." << std::endl;
-        return;
+        throw std::runtime_error("Read failed.");
       }
       memcpy(keybuff, mod_framebuff, 1440-92);
     }
-- 
2.43.0


From f74f09c6963c5219c5029416df4f53c3ff8fc87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:35 +0000
Subject: [PATCH 52/55] fix: decode_base64 read past its table for '{'

---
 msat/utils/string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/utils/string.cc b/msat/utils/string.cc
index d5486cb..8239436 100644
--- a/msat/utils/string.cc
+++ b/msat/utils/string.cc
@@ -449,7 +449,7 @@ static char invbase64(const T& idx)
 {
     static const char data[] = {62,0,0,0,63,52,53,54,55,56,57,58,59,60,61,0,0,0,0,0,0,0,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,0,0,0,0,0,0,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51};
     if (idx < 43) return 0;
-    if (static_cast<unsigned>(idx) > 43 + (sizeof(data)/sizeof(data[0]))) return 0;
+    if (static_cast<unsigned>(idx) >= 43 + (sizeof(data)/sizeof(data[0]))) return 0;
     return data[idx - 43];
 }
 
-- 
2.43.0


From c29aa9b00c7101b6ec1a02c10c5c1a43dcdfdf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:23 +0000
Subject: [PATCH 53/55] fix: printing of text, key and SGS header fields ran
 past their end

---
 msat/hrit/MSG_data_SGS_header.cpp | 8 ++++++--
 msat/hrit/MSG_data_key.cpp        | 2 +-
 msat/hrit/MSG_data_text.cpp       | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/msat/hrit/MSG_data_SGS_header.cpp b/msat/hrit/MSG_data_SGS_header.cpp
index b462f12..b8b3602 100644
--- a/msat/hrit/MSG_data_SGS_header.cpp
+++ b/msat/hrit/MSG_data_SGS_header.cpp
@@ -75,8 +75,12 @@ std::ostream& operator<< (std::ostream& os, MSG_SGSCommonHeader &h)
      << std::endl
      << "Proc. Instance Id   : " << (uint_2) h.SGSProcessingInstanceId
      << std::endl
-     << "Base Algorithm      : " << h.BaseAlgorithmVersion << std::endl
-     << "Product Algorithm   : " << h.ProductAlgorithmVersion << std::endl;
+     << "Base Algorithm      : "
+     << std::string(h.BaseAlgorithmVersion,
+                    strnlen(h.BaseAlgorithmVersion, 16)) << std::endl
+     << "Product Algorithm   : "
+     << std::string(h.ProductAlgorithmVersion,
+                    strnlen(h.ProductAlgorithmVersion, 16)) << std::endl;
   return os;
 }
 
diff --git a/msat/hrit/MSG_data_key.cpp b/msat/hrit/MSG_data_key.cpp
index aab3932..09d17f5 100644
--- a/msat/hrit/MSG_data_key.cpp
+++ b/msat/hrit/MSG_data_key.cpp
@@ -71,7 +71,7 @@ size_t MSG_data_key::read_from( unsigned const char_1 *buff, size_t datasize )
 
 std::ostream& operator<< ( std::ostream& os, MSG_encryption_key &k )
 {
-  std::string keystr = k.Public_key;
+  std::string keystr(k.Public_key, strnlen(k.Public_key, sizeof(k.Public_key)));
   os << "User Station Number : " << (uint_2) k.User_Station_number
      << std::endl
      << "Key Number          : " << (uint_2) k.Key_Number << std::endl
diff --git a/msat/hrit/MSG_data_text.cpp b/msat/hrit/MSG_data_text.cpp
index cf00049..96e8f5b 100644
--- a/msat/hrit/MSG_data_text.cpp
+++ b/msat/hrit/MSG_data_text.cpp
@@ -57,8 +57,9 @@ size_t MSG_data_text::read_from( unsigned const char_1 *buff, size_t datasize )
     throw std::runtime_error("Invalid TEXT message size.");
   }
 
-  tbuff = new unsigned char_1[tsize];
+  tbuff = new unsigned char_1[tsize+1];
   memcpy(tbuff, buff, tsize);
+  tbuff[tsize] = 0;
   return tsize;
 }
 
-- 
2.43.0


From 5ee1c59d232229d7ff3690b9bead3557882ff1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:22 +0000
Subject: [PATCH 54/55] fix: HRI: take the IR maximum of the west space window
 from its own bytes

imag.snmxwp_ir was read from bytes 466-467, which hold the VIS1 value.
---
 msat/hri/HRI_subframe_interpretation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msat/hri/HRI_subframe_interpretation.cpp b/msat/hri/HRI_subframe_interpretation.cpp
index 0cb44c9..68b6a82 100644
--- a/msat/hri/HRI_subframe_interpretation.cpp
+++ b/msat/hri/HRI_subframe_interpretation.cpp
@@ -163,7 +163,7 @@ void HRI_subframe_interpretation::readfrom( char *hsi )
   imag.snmxep_v1 = conv.i2_from_buff((const unsigned char *) hsi+458);
   imag.snmxep_v2 = conv.i2_from_buff((const unsigned char *) hsi+460);
   imag.snmxep_wv = conv.i2_from_buff((const unsigned char *) hsi+462);
-  imag.snmxwp_ir = conv.i2_from_buff((const unsigned char *) hsi+466);
+  imag.snmxwp_ir = conv.i2_from_buff((const unsigned char *) hsi+464);
   imag.snmxwp_v1 = conv.i2_from_buff((const unsigned char *) hsi+466);
   imag.snmxwp_v2 = conv.i2_from_buff((const unsigned char *) hsi+468);
   imag.snmxwp_wv = conv.i2_from_buff((const unsigned char *) hsi+470);
-- 
2.43.0


From 096c0a15c33072f2e4f9e43e3b67c63390d0823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:22 +0000
Subject: [PATCH 55/55] fix: HRI: set the calibration of X format WV images

The coefficients passed to set_calibration were uninitialised.
---
 msat/hri/HRI.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msat/hri/HRI.cpp b/msat/hri/HRI.cpp
index 11e9ce5..1d140f9 100644
--- a/msat/hri/HRI.cpp
+++ b/msat/hri/HRI.cpp
@@ -347,6 +347,8 @@ void Hri::readfrom( char *hri_filename, bool IS_TECNAVIA )
       for (int i = 0; i < image[0].nlines; i ++)
         image[0].put_line(get_dataline(hri, id), image[0].npixels, i); 
     }
+    coeff.mpef_absolute = interp.cal.calwv;
+    coeff.space_count   = interp.cal.wvspc;
     image[0].set_calibration(&coeff);
   }
   else if (format == "XVH")
-- 
2.43.0

