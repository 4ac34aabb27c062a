From 8104c97f699a3cd9cb0aeb8155bd2e403385de60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:35 +0000
Subject: [PATCH 01/54] fix: carry the concatenation header in 8-bit multipart
 messages

pack_8bits_to_8bit counted the UDH in TP-UDL but left it out of the PDU, and
the header was built from 16-bit characters that do not exist in 8-bit data
(nor, for 216 parts and more, in UCS2). Build it from octets for every
alphabet.
---
 messaging/sms/submit.py | 7 ++-----
 messaging/utils.py      | 9 ++++-----
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index e426f13..652a2d4 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -309,14 +309,11 @@ class SmsSubmit(SmsBase):
         for i, msg in enumerate(msgs):
             i += 1
             total_parts = len(msgs)
+            udh = (chr(udh_len) + chr(mid) + chr(data_len) +
+                   chr(sms_ref) + chr(total_parts) + chr(i))
             if limit == consts.SEVENBIT_SIZE:
-                udh = (chr(udh_len) + chr(mid) + chr(data_len) +
-                       chr(sms_ref) + chr(total_parts) + chr(i))
                 padding = " "
             else:
-                udh = (unichr(int("%04x" % ((udh_len << 8) | mid), 16)) +
-                       unichr(int("%04x" % ((data_len << 8) | sms_ref), 16)) +
-                       unichr(int("%04x" % ((total_parts << 8) | i), 16)))
                 padding = ""
 
             pdu_msgs.append(packing_func(padding + msg, udh))
diff --git a/messaging/utils.py b/messaging/utils.py
index 1456d79..820541c 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -150,22 +150,21 @@ def pack_8bits_to_8bit(message, udh=None):
         text = udh + text
 
     mlen = len(text)
-    message = chr(mlen) + message
+    message = chr(mlen) + text
     return encode_str(message)
 
 
 def pack_8bits_to_ucs2(message, udh=None):
     # XXX: This does not control the size respect to UDH
-    text = message
     nmesg = ''
 
     if udh is not None:
-        text = udh + text
+        nmesg = udh
 
-    for n in text:
+    for n in message:
         nmesg += chr(ord(n) >> 8) + chr(ord(n) & 0xFF)
 
-    mlen = len(text) * 2
+    mlen = len(nmesg)
     message = chr(mlen) + nmesg
     return encode_str(message)
 
-- 
2.43.0


From 8321fa2fdc336ffdf8ec52c54a7580a55d03e3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 02/54] fix: send characters outside of the BMP as UCS2
 surrogate pairs

Encoding one raised ValueError, as its code does not fit in two octets. Long
texts are now split by UTF-16 code units, and never inside of a pair.
---
 messaging/sms/submit.py | 18 ++++++++++++------
 messaging/utils.py      | 22 ++++++++++++++++++++--
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index 652a2d4..d62ac1b 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -7,7 +7,7 @@ import re
 from messaging.sms import consts
 from messaging.utils import (debug, encode_str, clean_number,
                              pack_8bits_to_ucs2, pack_8bits_to_7bits,
-                             pack_8bits_to_8bit,
+                             pack_8bits_to_8bit, to_ucs2,
                              timedelta_to_relative_validity,
                              datetime_to_absolute_validity)
 from messaging.sms.base import SmsBase
@@ -254,7 +254,7 @@ class SmsSubmit(SmsBase):
             else:
                 message_pdu = self._split_sms_message(self.text)
         elif self.fmt == 0x08:
-            if len(self.text) <= consts.UCS2_SIZE:
+            if len(to_ucs2(self.text)) <= consts.UCS2_SIZE * 2:
                 message_pdu = [pack_8bits_to_ucs2(self.text)]
             else:
                 message_pdu = self._split_sms_message(self.text)
@@ -281,16 +281,22 @@ class SmsSubmit(SmsBase):
             total_len = len(self.text)
 
         elif self.fmt == 0x08:
-            len_without_udh = consts.UCS2_MP_SIZE
+            # split the octets, a character may take two or four of them
+            text = to_ucs2(text)
+            len_without_udh = consts.UCS2_MP_SIZE * 2
             limit = consts.UCS2_SIZE
-            packing_func = pack_8bits_to_ucs2
-            total_len = len(self.text)
+            packing_func = pack_8bits_to_8bit
+            total_len = len(text)
 
         msgs = []
         pi, pe = 0, len_without_udh
 
         while pi < total_len:
-            if text[pi:pe][-1] == '\x1b':
+            if self.fmt == 0x08:
+                # do not cut a surrogate pair
+                if pe < total_len and 0xD8 <= ord(text[pe - 2]) <= 0xDB:
+                    pe -= 2
+            elif text[pi:pe][-1] == '\x1b':
                 pe -= 1
 
             msgs.append(text[pi:pe])
diff --git a/messaging/utils.py b/messaging/utils.py
index 820541c..39e2732 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -154,6 +154,25 @@ def pack_8bits_to_8bit(message, udh=None):
     return encode_str(message)
 
 
+def to_ucs2(text):
+    """
+    Returns the UTF-16 code units of ``text`` as a string of big endian octets
+
+    Characters outside of the BMP take two units, a surrogate pair
+    """
+    ret = ''
+    for c in text:
+        units = [ord(c)]
+        if units[0] > 0xFFFF:
+            code = units[0] - 0x10000
+            units = [0xD800 | (code >> 10), 0xDC00 | (code & 0x3FF)]
+
+        for unit in units:
+            ret += chr(unit >> 8) + chr(unit & 0xFF)
+
+    return ret
+
+
 def pack_8bits_to_ucs2(message, udh=None):
     # XXX: This does not control the size respect to UDH
     nmesg = ''
@@ -161,8 +180,7 @@ def pack_8bits_to_ucs2(message, udh=None):
     if udh is not None:
         nmesg = udh
 
-    for n in message:
-        nmesg += chr(ord(n) >> 8) + chr(ord(n) & 0xFF)
+    nmesg += to_ucs2(message)
 
     mlen = len(nmesg)
     message = chr(mlen) + nmesg
-- 
2.43.0


From 86a47e17c93f42c3e3f116afdb9d7b03e4064da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:43 +0000
Subject: [PATCH 03/54] fix: refuse text that is no octets in 8-bit messages

A character over U+00FF was written as three or four hexadecimal digits, which
left a PDU of odd or wrong length. It raises UnicodeEncodeError now.
---
 messaging/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/utils.py b/messaging/utils.py
index 39e2732..6e8b622 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -145,6 +145,10 @@ def pack_8bits_to_7bits(message, udh=None):
 
 
 def pack_8bits_to_8bit(message, udh=None):
+    if isinstance(message, unicode):
+        # 8-bit data, there is no octet for the rest of characters
+        message = message.encode('latin1')
+
     text = message
     if udh is not None:
         text = udh + text
-- 
2.43.0


From d2344e24f160a792be50824ff93b0bf68353b923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 04/54] fix: negative timezone offsets

FixedOffset.from_timezone('-0300') was 21 hours behind UTC, one day too many
for every negative offset but half a day; datetime_to_absolute_validity
made up for it only in part (-0300 and -2100 gave the same octet).
---
 messaging/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/messaging/utils.py b/messaging/utils.py
index 6e8b622..6c447c8 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -30,7 +30,7 @@ class FixedOffset(tzinfo):
         if sign == 1:
             td = timedelta(minutes=minutes)
         elif sign == -1:
-            td = timedelta(days=-1, minutes=minutes)
+            td = timedelta(minutes=-minutes)
 
         return cls(td, name)
 
@@ -276,10 +276,11 @@ def datetime_to_absolute_validity(d, tzname='Unknown'):
     n = d.strftime("%y %m %d %H %M %S %z").split(" ")
     # compute offset
     offset = FixedOffset.from_timezone(n[-1], tzname).offset
+    negative = offset.days < 0
     # one unit is 15 minutes
-    s = "%02d" % int(floor(offset.seconds / (60 * 15)))
+    s = "%02d" % int(floor(abs(offset).seconds / (60 * 15)))
 
-    if offset.days < 0:
+    if negative:
         # set MSB to 1
         s = "%02x" % ((int(s[0]) << 4) | int(s[1]) | 0x80)
 
-- 
2.43.0


From 4cc12dc1de8fb049e6a727d0b273449f920da4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 05/54] fix: decode UCS2 surrogate pairs

unichr() takes no surrogates where Python has 21-bit characters, so that a
received text with a character outside of the BMP raised ValueError.
---
 messaging/sms/deliver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 5a9ba6b..b1026fb 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -181,10 +181,8 @@ class SmsDeliver(SmsBase):
             self.text = data[ud_len:].tostring()
 
         elif self.fmt == 0x08:
-            data = data[ud_len:].tolist()
-            _bytes = [int("%02X%02X" % (data[i], data[i + 1]), 16)
-                            for i in range(0, len(data), 2)]
-            self.text = u''.join(list(map(unichr, _bytes)))
+            # UTF-16, so that surrogate pairs become one character
+            self.text = data[ud_len:].tostring().decode('utf-16-be')
 
     pdu = property(lambda self: self._pdu, _set_pdu)
 
-- 
2.43.0


From f1b2a3dfad857450d18bffd3ddf68c92f1781fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:59 +0000
Subject: [PATCH 06/54] fix: flag 8-bit port addressing as such

---
 messaging/sms/udh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/udh.py b/messaging/sms/udh.py
index eecfa23..fb9f71a 100644
--- a/messaging/sms/udh.py
+++ b/messaging/sms/udh.py
@@ -68,7 +68,7 @@ class UserDataHeader(object):
             elif iei == 0x04:
                 # process App port addressing 8bit
                 dest_port, orig_port = ie_data
-                udh.ports = PortAddress(dest_port, orig_port, False)
+                udh.ports = PortAddress(dest_port, orig_port, True)
 
             elif iei == 0x05:
                 # process App port addressing 16bit
-- 
2.43.0


From 77ce9bf9ff011463d668638549f894385fb93b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:27 +0000
Subject: [PATCH 07/54] fix: no extra character after a 7 character
 alphanumeric sender

Seven septets leave seven unused bits in their last octet, which were decoded
as one more character, '@'.
---
 messaging/sms/deliver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index b1026fb..1a52ddd 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -99,6 +99,8 @@ class SmsDeliver(SmsBase):
             raise ValueError("Cannot decode a SmsSubmitReport message yet")
 
         sndlen = data.pop(0)
+        # the length counts semi-octets, septets in an alphanumeric address
+        septets = sndlen * 4 // 7
         if sndlen % 2:
             sndlen += 1
         sndlen = int(sndlen / 2.0)
@@ -106,7 +108,7 @@ class SmsDeliver(SmsBase):
         sndtype = (data.pop(0) >> 4) & 0x07
         if sndtype == consts.ALPHANUMERIC:
             # coded according to 3GPP TS 23.038 [9] GSM 7-bit default alphabet
-            sender = unpack_msg2(data[:sndlen]).decode("gsm0338")
+            sender = unpack_msg2(data[:sndlen])[:septets].decode("gsm0338")
         else:
             # Extract phone number of sender
             sender = swap_number(encode_bytes(data[:sndlen]))
-- 
2.43.0


From 1b78f31a7f53944b8661a9cbe0ce7cbf865e092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:53 +0000
Subject: [PATCH 08/54] fix: alphabet of message waiting indications

The coding groups 0xC0, 0xD0 and 0xE0 (TS 23.038, section 4) hold the kind of
indication where the others hold the alphabet, e.g. 0xC8, a voice mail
notification in the GSM alphabet, was decoded as UCS2.
---
 messaging/sms/deliver.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index 1a52ddd..f8e806c 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -122,7 +122,13 @@ class SmsDeliver(SmsBase):
         self.pid = data.pop(0)
         # 1 byte TP-DCS (Data Coding Scheme)
         self.dcs = data.pop(0)
-        if self.dcs & (0x04 | 0x08) == 0:
+        if self.dcs & 0xF0 in (0xC0, 0xD0):
+            # message waiting indication, text in the GSM alphabet
+            self.fmt = 0x00
+        elif self.dcs & 0xF0 == 0xE0:
+            # message waiting indication, text in UCS2
+            self.fmt = 0x08
+        elif self.dcs & (0x04 | 0x08) == 0:
             self.fmt = 0x00
         elif self.dcs & 0x04:
             self.fmt = 0x04
-- 
2.43.0


From 4729d6a835de52daaf4fe060674139e56a6cb1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:20 +0000
Subject: [PATCH 09/54] fix: a new pdu replaces everything decoded from the old
 one

Assigning SmsDeliver.pdu kept the user data header, the type, the status
report, the date or the coding of the former message where the new one does
not have them.
---
 messaging/sms/deliver.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index f8e806c..b5bd453 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -62,6 +62,10 @@ class SmsDeliver(SmsBase):
         if len(pdu) % 2:
             raise ValueError("Can not decode an odd-length pdu")
 
+        # do not mix this message with the previous one, if any
+        self.udh = self.type = self.sr = self.date = None
+        self.pid = self.dcs = self.fmt = None
+
         # XXX: Should we keep the original PDU or the modified one?
         self._pdu = pdu
 
-- 
2.43.0


From 7573c2089ccac33cbfed3ac987c3375255c6c723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 10/54] fix: encode the data parts that belong to no page

MMSEncoder counted the parts added with MMSMessage.add_data_part in the number
of entries of the body, but did not write them.
---
 messaging/mms/mms_pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index ed44c46..1455694 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -777,6 +777,8 @@ class MMSEncoder(wsp_pdu.Encoder):
                 if part_tuple is not None:
                     parts.append(part_tuple[0])
 
+        parts.extend(self._mms_message._data_parts)
+
         for part in parts:
             name, val_type = part.headers['Content-Type']
             part_content_type = self.encode_content_type_value(name, val_type)
-- 
2.43.0


From 4b79bc7a987ef7a646c6ca77d2551029241f2d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 11/54] fix: do not remove headers from the message that is
 encoded

The second encoding of a message had another Transaction-Id, and the type and
version of its first encoding were lost.
---
 messaging/mms/mms_pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 1455694..1d8ee66 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -627,7 +627,8 @@ class MMSEncoder(wsp_pdu.Encoder):
         # Create an array of 8-bit values
         message_header = array.array('B')
 
-        headers_to_encode = self._mms_message.headers
+        # a copy, encoding a message does not modify it
+        headers_to_encode = self._mms_message.headers.copy()
 
         # If the user added any of these to the message manually
         # (X- prefix) use those instead
-- 
2.43.0


From 041a47c94e802c7308ee8a9a68e533ed38b118df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 12/54] fix: a Bcc header is a destination address

A m-send-req with only blind copies was sent as m-retrieve-conf.
---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 1d8ee66..9b759f9 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -663,7 +663,7 @@ class MMSEncoder(wsp_pdu.Encoder):
         # what she is doing
         if headers_to_encode['Message-Type'] == 'm-send-req':
             found_dest_address = False
-            for address_type in ('To', 'Cc', 'Bc'):
+            for address_type in ('To', 'Cc', 'Bcc'):
                 if address_type in headers_to_encode:
                     found_dest_address = True
                     break
-- 
2.43.0


From f36922d633024648085f77a3011222a0f3256a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:37 +0000
Subject: [PATCH 13/54] fix: encode long integers in network byte order

Long-integer is big-endian (WAP-230, 8.4.2.1), as decode_long_integer reads
it. A Message-Size of 256 was received as 1.
---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 7aa1eae..3f7e1a0 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1528,7 +1528,7 @@ class Encoder:
         # Encode the Multi-octect-integer
         while longInt > 0:
             byte = 0xff & longInt
-            encoded_long_int.append(byte)
+            encoded_long_int.insert(0, byte)
             longInt = longInt >> 8
 
         # Now add the SHort-length value, and make sure it's ok
-- 
2.43.0


From 618d5bf6cc80c8d17353f68ce67069bf51a53f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:48 +0000
Subject: [PATCH 14/54] fix: refuse to encode negative integers

They were encoded as 0, Multi-octet-integer has no sign.
---
 messaging/mms/wsp_pdu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 3f7e1a0..1e8df7d 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1523,6 +1523,9 @@ class Encoder:
         if not isinstance(integer, int):
             raise EncodeError('<integer> must be of type "int"')
 
+        if integer < 0:
+            raise EncodeError('Cannot encode a negative Long-integer value')
+
         encoded_long_int = []
         longInt = integer
         # Encode the Multi-octect-integer
-- 
2.43.0


From a679d2341daa5349fc05f63215cbc43b6ee4d186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 15/54] fix: value length of a content type with parameters

It counted the media type and every parameter as one octet each, instead of
their encoded octets, and the nested lists of a part's content type could not
be written to the body.
---
 messaging/mms/wsp_pdu.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 1e8df7d..93cb0a4 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1616,7 +1616,7 @@ class Encoder:
         else:
             val = Encoder.encode_text_string(content_type)
 
-        return [val]
+        return val
 
     @staticmethod
     def encode_parameter(parameter_name, parameter_value, version='1.2'):
@@ -1955,8 +1955,10 @@ class Encoder:
         # Encode the actual content type
         encoded_media_type = Encoder.encode_media_type(media_type)
         # Encode all parameters
-        encoded_parameters = [Encoder.encode_parameter(name, parameters[name])
-                                    for name in parameters]
+        encoded_parameters = []
+        for name in parameters:
+            encoded_parameters.extend(
+                    Encoder.encode_parameter(name, parameters[name]))
 
         value_length = len(encoded_media_type) + len(encoded_parameters)
         encoded_value_length = Encoder.encode_value_length(value_length)
-- 
2.43.0


From d6926fa05ee649891442eb2d582378841e1a6784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:54 +0000
Subject: [PATCH 16/54] fix: parameter values with separators

The text of an untyped parameter was written as Token-text, which ends in its
first space, slash, colon... when it is decoded; the rest of the value was
taken for further parameters. Write a Quoted-string, and read it as such.
---
 messaging/mms/wsp_pdu.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 93cb0a4..2343f97 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -44,6 +44,7 @@ References used in the code and this document:
 
 import array
 from datetime import datetime
+import re
 
 from messaging.utils import debug
 from messaging.mms.iterator import PreviewIterator
@@ -1165,10 +1166,10 @@ class Decoder:
         :rtype: str
         """
         try:
-            return Decoder.decode_token_text(byte_iter)
+            return Decoder.decode_quoted_string(byte_iter)
         except DecodeError:
             try:
-                return Decoder.decode_quoted_string(byte_iter)
+                return Decoder.decode_token_text(byte_iter)
             except DecodeError:
                 # Ok, so it's a "No-value"
                 return ''
@@ -1684,7 +1685,7 @@ class Encoder:
             try:
                 value = Encoder.encode_integer_value(parameter_value)
             except EncodeError:
-                value = Encoder.encode_text_string(parameter_value)
+                value = Encoder.encode_text_value(parameter_value)
 
             encoded_parameter.extend(value)
 
@@ -1742,8 +1743,24 @@ class Encoder:
 
     @staticmethod
     def encode_text_value(text):
-        """Stub for encoding Text-values; see :func:`encode_text_string`"""
-        return Encoder.encode_text_string(text)
+        """
+        Encodes a Text-value
+
+        From [5], section 8.4.2.3::
+
+            Text-value = No-value | Token-text | Quoted-string
+
+        :return: The encoded text, as a list of byte values
+        :rtype: list
+        """
+        if re.match('[!#-\x7e]+$', text):
+            try:
+                return Encoder.encode_token_text(text)
+            except EncodeError:
+                pass
+
+        # It is no Token-text, that would end in the first separator
+        return [34] + Encoder.encode_text_string(text)
 
     @staticmethod
     def encode_no_value(value=None):
-- 
2.43.0


From 2f68e5807527c4449a7a1d0907372840754059a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 17/54] fix: SMIL of pages with audio

A slide without text took the text of the previous slide, or raised
UnboundLocalError in the first one.
---
 messaging/mms/message.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 6cff8a0..f5a91aa 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -201,7 +201,6 @@ class MMSMessage:
                     audio_node.setAttribute('begin', str(begin))
                     audio_node.setAttribute('end', str(end))
 
-                par_node.appendChild(text_node)
                 par_node.appendChild(audio_node)
 
             body_node.appendChild(par_node)
-- 
2.43.0


From 2a14ebc54d126cc3258c997ce9a8d41f425a66a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 18/54] fix: SMIL times of content without an end

A time_end of 0 means until the next slide (see add_image), but the SMIL said
end="0" when a time_begin was given; a negative time_begin means 0.
---
 messaging/mms/message.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index f5a91aa..4a2b5cf 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -160,10 +160,10 @@ class MMSMessage:
                 image_node.setAttribute('src', src)
                 image_node.setAttribute('region', 'Image')
                 if begin > 0 or end > 0:
-                    if end > page.duration:
+                    if end <= 0 or end > page.duration:
                         end = page.duration
 
-                    image_node.setAttribute('begin', str(begin))
+                    image_node.setAttribute('begin', str(max(begin, 0)))
                     image_node.setAttribute('end', str(end))
 
                 par_node.appendChild(image_node)
@@ -175,10 +175,10 @@ class MMSMessage:
                 text_node.setAttribute('src', src)
                 text_node.setAttribute('region', 'Text')
                 if begin > 0 or end > 0:
-                    if end > page.duration:
+                    if end <= 0 or end > page.duration:
                         end = page.duration
 
-                    text_node.setAttribute('begin', str(begin))
+                    text_node.setAttribute('begin', str(max(begin, 0)))
                     text_node.setAttribute('end', str(end))
 
                 par_node.appendChild(text_node)
@@ -195,10 +195,10 @@ class MMSMessage:
                 audio_node = smil_doc.createElement('audio')
                 audio_node.setAttribute('src', src)
                 if begin > 0 or end > 0:
-                    if end > page.duration:
+                    if end <= 0 or end > page.duration:
                         end = page.duration
 
-                    audio_node.setAttribute('begin', str(begin))
+                    audio_node.setAttribute('begin', str(max(begin, 0)))
                     audio_node.setAttribute('end', str(end))
 
                 par_node.appendChild(audio_node)
-- 
2.43.0


From 7f07de49714ae855fdef1db9790de49ddcd3d661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:26 +0000
Subject: [PATCH 19/54] fix: data_parts of a message with pages

It raised AttributeError. Return the SMIL and the content of the pages as data
parts, like those added to the message itself.
---
 messaging/mms/message.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 4a2b5cf..e2dba10 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -97,9 +97,11 @@ class MMSMessage:
         including data parts that were added to slides in this message"""
         parts = []
         if len(self._pages):
-            parts.append(self.smil())
-            for slide in self._mms_message._pages:
-                parts.extend(slide.data_parts())
+            smil_part = DataPart()
+            smil_part.set_data(self.smil(), 'application/smil')
+            parts.append(smil_part)
+            for page in self._pages:
+                parts.extend([part[0] for part in page.data_parts])
 
         parts.extend(self._data_parts)
         return parts
-- 
2.43.0


From 5afc7753ef8d8963490939626cf458c5c06e92c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 20/54] fix: length of a data part whose file has changed

The data of the file is read once, the length was that of the file at any
later time; if they differ the encoded entry has a wrong DataLen.
---
 messaging/mms/message.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index e2dba10..bdd4ccc 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -535,10 +535,7 @@ class DataPart(object):
 
     def __len__(self):
         """Provides the length of the data encapsulated by this object"""
-        if self._filename is not None:
-            return int(os.stat(self._filename)[6])
-        else:
-            return len(self.data)
+        return len(self.data)
 
     @property
     def data(self):
-- 
2.43.0


From 6ae5ae36de135ce060f58d7f632d476c67b04b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 21/54] fix: keep the file when a message cannot be encoded

to_file emptied it before the message was encoded.
---
 messaging/mms/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index bdd4ccc..5f56f66 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -235,8 +235,9 @@ class MMSMessage:
         :rtype array.array('B')
         :return: The binary-encode MMS data, as an array of bytes
         """
+        data = self.encode()
         with open(filename, 'wb') as f:
-            self.encode().tofile(f)
+            data.tofile(f)
 
     @staticmethod
     def from_data(data):
-- 
2.43.0


From 77cbbb70c6c67f544fe4e8fc4c6c58a237048504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 22/54] fix: decode the headers of a body part with the WSP
 code page

They were looked up in the table of MMS headers first, where the number of
Content-Location is that of Message-Size, and a part lost its name.
---
 messaging/mms/mms_pdu.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 9b759f9..af209d5 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -194,7 +194,8 @@ class MMSDecoder(wsp_pdu.Decoder):
             # have been read
             while True:
                 try:
-                    hdr, value = self.decode_header(ct_iter)
+                    # these are WSP headers, not those of a MMS PDU
+                    hdr, value = wsp_pdu.Decoder.decode_header(ct_iter)
                     headers[hdr] = value
                 except StopIteration:
                     break
-- 
2.43.0


From 7356371d3ed0f4bd869efe68ed79698691c64b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:38 +0000
Subject: [PATCH 23/54] fix: decode empty text headers

The end of an empty Text-string was taken for a Value-length, and the next
header for its character set.
---
 messaging/mms/mms_pdu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index af209d5..cc26090 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -314,6 +314,10 @@ class MMSDecoder(wsp_pdu.Decoder):
         try:
             # First try "Value-length Char-set Text-string"
             value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
+            if value_length == 0:
+                # an empty Text-string, only its End-of-string
+                return ''
+
             # TODO: add proper support for charsets...
             try:
                 charset = wsp_pdu.Decoder.decode_well_known_charset(byte_iter)
-- 
2.43.0


From e46432ab7495c666c2c6a068f881960a436fe3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:48 +0000
Subject: [PATCH 24/54] fix: defaults of unknown status values

The decoder returned the number instead of the name, the encoder put the name
among the octets, which raises TypeError.
---
 messaging/mms/mms_pdu.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index cc26090..075b31c 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -536,7 +536,7 @@ class MMSDecoder(wsp_pdu.Decoder):
         byte = byte_iter.preview()
         byte_iter.next()
         # Return error unspecified if it couldn't be decoded
-        return response_status_values.get(byte, 0x81)
+        return response_status_values.get(byte, 'Error-unspecified')
 
     @staticmethod
     def decode_status_value(byte_iter):
@@ -562,7 +562,7 @@ class MMSDecoder(wsp_pdu.Decoder):
 
         byte = byte_iter.next()
         # Return an unrecognised state if it couldn't be decoded
-        return status_values.get(byte, 0x84)
+        return status_values.get(byte, 'Unrecognised')
 
     @staticmethod
     def decode_expiry_value(byte_iter):
@@ -1001,4 +1001,4 @@ class MMSEncoder(wsp_pdu.Encoder):
         }
 
         # Return an unrecognised state if it couldn't be decoded
-        return [status_values.get(status_value, 'Unrecognised')]
+        return [status_values.get(status_value, 0x84)]
-- 
2.43.0


From ed5ce708c8387ac9c9567586a4c8eddbefe1ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 25/54] fix: skip the value of an unknown message type

It stayed in the data and was decoded as the name of the next header.
---
 messaging/mms/mms_pdu.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 075b31c..5c8ae34 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -447,13 +447,8 @@ class MMSDecoder(wsp_pdu.Decoder):
             0x86: 'm-delivery-ind',
         }
 
-        byte = byte_iter.preview()
-        if byte in message_types:
-            byte_iter.next()
-            return message_types[byte]
-
-        byte_iter.reset_preview()
-        return '<unknown>'
+        byte = byte_iter.next()
+        return message_types.get(byte, '<unknown>')
 
     @staticmethod
     def decode_priority_value(byte_iter):
-- 
2.43.0


From 938e82eb800dd4bf1ebaec4c6bf37dd91190784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 26/54] fix: reset the preview before a header is decoded as a
 WSP one

decode_mms_header promises not to modify the iterator when the name is no
short integer, but the next preview skipped that octet.
---
 messaging/mms/mms_pdu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 5c8ae34..43266b1 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -267,6 +267,7 @@ class MMSDecoder(wsp_pdu.Decoder):
         # Get the MMS-field-name
         mms_field_name = ''
         preview = byte_iter.preview()
+        byte_iter.reset_preview()
         byte = wsp_pdu.Decoder.decode_short_integer_from_byte(preview)
 
         if byte in mms_field_names:
-- 
2.43.0


From 5818531e450ebeace94317d7244a5af17fdc072f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 27/54] fix: decode short relative delivery times

Delta-seconds-value is an Integer-value, up to 127 s it is a Short-integer.
---
 messaging/mms/mms_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 43266b1..59a0927 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -363,7 +363,7 @@ class MMSDecoder(wsp_pdu.Decoder):
     def decode_delivery_time_value(byte_iter):
         value_length = wsp_pdu.Decoder.decode_value_length(byte_iter)
         token = byte_iter.next()
-        value = wsp_pdu.Decoder.decode_long_integer(byte_iter)
+        value = wsp_pdu.Decoder.decode_integer_value(byte_iter)
         if token == 128:
             token_type = 'absolute'
         elif token == 129:
-- 
2.43.0


From fab32098760fdb88d7588037e5f8959ea927ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:30 +0000
Subject: [PATCH 28/54] fix: decode versions without a minor number

'1' is encoded with 15 as its minor number, it was decoded as '1.15'.
---
 messaging/mms/wsp_pdu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 2343f97..0dd6de2 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1139,6 +1139,10 @@ class Decoder:
             byteValue = Decoder.decode_short_integer(byte_iter)
             major = (byteValue & 0x70) >> 4
             minor = byteValue & 0x0f
+            if minor == 15:
+                # there is no minor version
+                return '%d' % major
+
             return '%d.%d' % (major, minor)
         except DecodeError:
             return Decoder.decode_text_string(byte_iter)
-- 
2.43.0


From ba75991ff9675c00c338f5b0b213b4a76d6cb27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 29/54] fix: decode_uint_8 dropped the upper four bits

---
 messaging/mms/wsp_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 0dd6de2..56f2f97 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -332,7 +332,7 @@ class Decoder:
         :rtype: int
         """
         # Make the byte unsigned
-        return byte_iter.next() & 0xf
+        return byte_iter.next() & 0xff
 
     @staticmethod
     def decode_uint_var(byte_iter):
-- 
2.43.0


From 1fa86da93ab65cbea8305a981985ecdc7bc87b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 30/54] fix: decode_no_value

It unpacked the octet it had read, which raised TypeError for every input.
---
 messaging/mms/wsp_pdu.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 56f2f97..f1ff219 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1191,8 +1191,9 @@ class Decoder:
         :return: No-value, which is 0x00
         :rtype: int
         """
-        byte_iter, local_iter = byte_iter.next()
-        if local_iter.next() != 0x00:
+        byte = byte_iter.preview()
+        if byte != 0x00:
+            byte_iter.reset_preview()
             raise DecodeError('Expected No-value')
 
         byte_iter.next()
-- 
2.43.0


From 47939bef255535c9e1d01667a26f81c8648c49fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:00 +0000
Subject: [PATCH 31/54] fix: assigned numbers of any charset and
 multipart/byteranges

Any-charset is octet 128 (WAP-230, 8.4.2.8), as the docstring says.
---
 messaging/mms/wsp_pdu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index f1ff219..5f23cc2 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -104,7 +104,7 @@ well_known_content_types = [
     'text/x-vCard', 'text/vnd.wap.wml',
     'text/vnd.wap.wmlscript', 'text/vnd.wap.wta-event',
     'multipart/*', 'multipart/mixed', 'multipart/form-data',
-    'multipart/byterantes', 'multipart/alternative',
+    'multipart/byteranges', 'multipart/alternative',
     'application/*', 'application/java-vm',
     'application/x-www-form-urlencoded',
     'application/x-hdmlc', 'application/vnd.wap.wmlc',
@@ -1291,7 +1291,7 @@ class Decoder:
         # Look for the Any-charset value
         byte = byte_iter.preview()
         byte_iter.reset_preview()
-        if byte == 127:
+        if byte == 128:
             byte_iter.next()
             decoded_charset = '*'
         else:
-- 
2.43.0


From 5643728ab083ba22a7fb54a32b8e59020d4df02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:10 +0000
Subject: [PATCH 32/54] fix: WAP pushes with long headers

HeadersLen is a uintvar (WAP-230, 8.2.4.1), it takes two octets from 128 on.
---
 messaging/sms/wap.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/messaging/sms/wap.py b/messaging/sms/wap.py
index 46611ab..0254e42 100644
--- a/messaging/sms/wap.py
+++ b/messaging/sms/wap.py
@@ -2,6 +2,7 @@
 
 from array import array
 
+from messaging.mms.iterator import PreviewIterator
 from messaging.mms.mms_pdu import MMSDecoder
 
 
@@ -20,11 +21,12 @@ def is_a_wap_push_notification(s):
 def extract_push_notification(s):
     data = array("B", s)
 
-    wap_push, offset = data[1:3]
-    assert wap_push == 0x06
+    assert data[1] == 0x06
 
-    offset += 3
-    data = data[offset:]
+    # the length of the headers is a uintvar
+    data_iter = PreviewIterator(data[2:])
+    headers_len = MMSDecoder.decode_uint_var(data_iter)
+    data = array("B", data_iter)[headers_len:]
 
     # XXX: Not all WAP pushes are MMS
     return MMSDecoder().decode_data(data)
-- 
2.43.0


From bb6a406e63ea44ce205ee64df95399976a52ba89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:39 +0000
Subject: [PATCH 33/54] fix: decode the Content-ID of body parts

Its number was assigned in version 1.3 of WSP, the decoder only knew those of
1.2 and took the value for the name of an application header. The value is a
Quoted-string (WAP-230, 8.4.2.63).
---
 messaging/mms/wsp_pdu.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 5f23cc2..44f6a67 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1322,7 +1322,7 @@ class Decoder:
         :rtype: tuple
         """
         field_value = Decoder.decode_short_integer(byte_iter)
-        hdr_fields = get_header_field_names()
+        hdr_fields = get_header_field_names('1.4')
         # TODO: *technically* this can fail, but then we have already
         # read a byte... should fix?
         if field_value not in xrange(len(hdr_fields)):
@@ -1348,7 +1348,11 @@ class Decoder:
                 raise
 
         else:
-            decoded_value = Decoder.decode_text_string(byte_iter)
+            try:
+                # e.g. Content-ID
+                decoded_value = Decoder.decode_quoted_string(byte_iter)
+            except DecodeError:
+                decoded_value = Decoder.decode_text_string(byte_iter)
 
         return field_name, decoded_value
 
-- 
2.43.0


From ff45aaa8c378bd53a0cc535876b6d63052014354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 34/54] fix: octet 0x1b is no escape in 8-bit messages

The part was cut one octet short of full when its last one was 0x1b, which
could take one more message to send.
---
 messaging/sms/submit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/sms/submit.py b/messaging/sms/submit.py
index d62ac1b..370e143 100644
--- a/messaging/sms/submit.py
+++ b/messaging/sms/submit.py
@@ -296,7 +296,7 @@ class SmsSubmit(SmsBase):
                 # do not cut a surrogate pair
                 if pe < total_len and 0xD8 <= ord(text[pe - 2]) <= 0xDB:
                     pe -= 2
-            elif text[pi:pe][-1] == '\x1b':
+            elif self.fmt == 0x00 and text[pi:pe][-1] == '\x1b':
                 pe -= 1
 
             msgs.append(text[pi:pe])
-- 
2.43.0


From 3d8072821ed18a214ee3eeb537b653b9d5d7f662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 35/54] fix: decode U+FFFE in UCS2 texts

Jython takes it for a byte order mark, wherever it is.
---
 messaging/sms/deliver.py |  6 +++---
 messaging/utils.py       | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/messaging/sms/deliver.py b/messaging/sms/deliver.py
index b5bd453..ae49564 100644
--- a/messaging/sms/deliver.py
+++ b/messaging/sms/deliver.py
@@ -4,7 +4,8 @@
 from datetime import datetime, timedelta
 
 from messaging.utils import (swap, swap_number, encode_bytes, debug,
-                             unpack_msg, unpack_msg2, to_array)
+                             unpack_msg, unpack_msg2, to_array,
+                             from_ucs2)
 from messaging.sms import consts
 from messaging.sms.base import SmsBase
 from messaging.sms.udh import UserDataHeader
@@ -193,8 +194,7 @@ class SmsDeliver(SmsBase):
             self.text = data[ud_len:].tostring()
 
         elif self.fmt == 0x08:
-            # UTF-16, so that surrogate pairs become one character
-            self.text = data[ud_len:].tostring().decode('utf-16-be')
+            self.text = from_ucs2(data[ud_len:])
 
     pdu = property(lambda self: self._pdu, _set_pdu)
 
diff --git a/messaging/utils.py b/messaging/utils.py
index 6c447c8..854e015 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -177,6 +177,25 @@ def to_ucs2(text):
     return ret
 
 
+def from_ucs2(data):
+    """Returns the text of ``data``, big endian UTF-16 code units"""
+    if len(data) % 2:
+        raise ValueError("UCS2 text with an odd number of octets")
+
+    units = [data[i] << 8 | data[i + 1] for i in range(0, len(data), 2)]
+    ret = []
+    while units:
+        unit = units.pop(0)
+        if (0xD800 <= unit <= 0xDBFF and units and
+                0xDC00 <= units[0] <= 0xDFFF):
+            code = 0x10000 + ((unit & 0x3FF) << 10) + (units.pop(0) & 0x3FF)
+            ret.append(('\\U%08x' % code).decode('unicode-escape'))
+        else:
+            ret.append(unichr(unit))
+
+    return u''.join(ret)
+
+
 def pack_8bits_to_ucs2(message, udh=None):
     # XXX: This does not control the size respect to UDH
     nmesg = ''
-- 
2.43.0


From 24365e902cd9558ab07f24fa4d2296dcf1cc592d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 36/54] fix: texts that start with an octet over 127 or contain
 a NUL

A Text-string has to be quoted in the first case, and would end early in the
second one.
---
 messaging/mms/wsp_pdu.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 44f6a67..a0f0ed6 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1476,6 +1476,14 @@ class Encoder:
         :rtype: list
         """
         encoded_string = [ord(c) for c in string]
+        if 0x00 in encoded_string:
+            raise EncodeError('A Text-string cannot contain its End-of-string')
+
+        # [5]: a Quote must precede a first character that could be taken
+        # for a value of another kind
+        if encoded_string and encoded_string[0] > 126:
+            encoded_string.insert(0, 127)
+
         encoded_string.append(0x00)
         return encoded_string
 
@@ -1769,7 +1777,11 @@ class Encoder:
                 pass
 
         # It is no Token-text, that would end in the first separator
-        return [34] + Encoder.encode_text_string(text)
+        if '\x00' in text:
+            raise EncodeError('A Quoted-string cannot contain its '
+                              'End-of-string')
+
+        return [34] + [ord(c) for c in text] + [0x00]
 
     @staticmethod
     def encode_no_value(value=None):
-- 
2.43.0


From efc9d242a1627ce6e1593a5df79a37210a9f456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:53 +0000
Subject: [PATCH 37/54] fix: refuse names and media types that are read as
 another value

A token ends in a control character, and one that starts with an octet over
127 is taken for an assigned number.
---
 messaging/mms/wsp_pdu.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index a0f0ed6..45abb88 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1632,7 +1632,7 @@ class Encoder:
             val = Encoder.encode_short_integer(
                     well_known_content_types.index(content_type))
         else:
-            val = Encoder.encode_text_string(content_type)
+            val = Encoder.encode_extension_media(content_type)
 
         return val
 
@@ -1728,6 +1728,11 @@ class Encoder:
                 raise EncodeError('Char "%s" in text string; cannot '
                                   'encode as Token-text' % chr(char))
 
+        for char in text:
+            if ord(char) < 32 or ord(char) > 126:
+                raise EncodeError('Character %d in text string; cannot '
+                                  'encode as Token-text' % ord(char))
+
         return Encoder.encode_text_string(text)
 
     @staticmethod
@@ -1968,7 +1973,7 @@ class Encoder:
                 raise EncodeError('Invalid Extension-media: Cannot convert '
                                   'value to text string')
         char = media_value[0]
-        if ord(char) < 32 or ord(char) == 127:
+        if ord(char) < 32 or ord(char) >= 127:
             raise EncodeError('Invalid Extension-media: TEXT starts with '
                               'invalid character: %s' % ord(char))
 
-- 
2.43.0


From e675d1668025e4f8f6a83cab458fb77c21a6e2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:05 +0000
Subject: [PATCH 38/54] fix: consume the No-value of a Text-value

The octet was left and taken for the beginning of the next parameter.
---
 messaging/mms/wsp_pdu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 45abb88..81153f2 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1176,6 +1176,7 @@ class Decoder:
                 return Decoder.decode_token_text(byte_iter)
             except DecodeError:
                 # Ok, so it's a "No-value"
+                Decoder.decode_no_value(byte_iter)
                 return ''
 
     @staticmethod
-- 
2.43.0


From ed8a9145d55a5216b4ac76fef494fc3a3ff64936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:17 +0000
Subject: [PATCH 39/54] fix: encode Long-integers over sys.maxint

They may take up to 30 octets.
---
 messaging/mms/wsp_pdu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 81153f2..0f73794 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1539,7 +1539,7 @@ class Encoder:
         :return: The encoded Long-integer, as a sequence of byte values
         :rtype: list
         """
-        if not isinstance(integer, int):
+        if not isinstance(integer, (int, long)):
             raise EncodeError('<integer> must be of type "int"')
 
         if integer < 0:
@@ -1755,7 +1755,7 @@ class Encoder:
         :return: The encoded integer value, as a list of byte values
         :rtype: list
         """
-        if not isinstance(integer, int):
+        if not isinstance(integer, (int, long)):
             raise EncodeError('<integer> must be of type "int"')
 
         # First try and see if it's a short-integer
-- 
2.43.0


From 3d79e0754aa6525c5c1d974eef1908063bfaba04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:55 +0000
Subject: [PATCH 40/54] fix: do not consume assigned numbers that are unknown

Their alternatives were decoded from the octet after them.
---
 messaging/mms/wsp_pdu.py | 62 ++++++++++++++++++++++++++++++++--------
 1 file changed, 50 insertions(+), 12 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 0f73794..292ae45 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -557,7 +557,7 @@ class Decoder:
         """
         media_value = ''
         byte = byte_iter.preview()
-        if byte < 32 or byte == 127:
+        if byte < 32 or byte >= 127:
             byte_iter.reset_preview()
             raise DecodeError('Invalid Extension-media: TEXT '
                               'starts with invalid character: %d' % byte)
@@ -689,6 +689,37 @@ class Decoder:
 
         return integer
 
+    @staticmethod
+    def preview_integer_value(byte_iter):
+        """
+        Previews the integer value pointed by ``byte_iter``
+
+        This is :func:`decode_integer_value`, but ``byte_iter`` is never
+        modified.
+
+        :raise DecodeError: The sequence of bytes starting at ``byte_iter``
+                            does not contain a valid integer value.
+
+        :return: The integer value
+        :rtype: int
+        """
+        byte_iter.reset_preview()
+        try:
+            byte = byte_iter.preview()
+            if byte & 0x80:
+                return byte & 0x7f
+
+            if byte > 30:
+                raise DecodeError('Not a valid integer value')
+
+            integer = 0
+            for i in xrange(byte):
+                integer = integer << 8 | byte_iter.preview()
+
+            return integer
+        finally:
+            byte_iter.reset_preview()
+
     @staticmethod
     def decode_content_type_value(byte_iter):
         """
@@ -754,17 +785,20 @@ class Decoder:
         :rtype: str
         """
         try:
-            value = Decoder.decode_integer_value(byte_iter)
+            value = Decoder.preview_integer_value(byte_iter)
         except DecodeError:
             raise DecodeError('Invalid well-known media: could not read '
                               'integer value representing it')
 
         try:
-            return well_known_content_types[value]
+            media = well_known_content_types[value]
         except IndexError:
             raise DecodeError('Invalid well-known media: could not '
                               'find content type in table of assigned values')
 
+        Decoder.decode_integer_value(byte_iter)
+        return media
+
     @staticmethod
     def decode_media_type(byte_iter):
         """
@@ -803,17 +837,19 @@ class Decoder:
         :return: The decoded media type
         :rtype: str
         """
+        byte = byte_iter.preview()
+        byte_iter.reset_preview()
+        if byte & 0x7f >= len(well_known_content_types) and byte & 0x80:
+            raise DecodeError('Invalid constrained media: could not '
+                              'find well-known content type')
+
         try:
             media_value = Decoder.decode_constrained_encoding(byte_iter)
         except DecodeError, msg:
             raise DecodeError('Invalid Constrained-media: %s' % msg)
 
         if isinstance(media_value, int):
-            try:
-                return well_known_content_types[media_value]
-            except IndexError:
-                raise DecodeError('Invalid constrained media: could not '
-                                  'find well-known content type')
+            return well_known_content_types[media_value]
 
         return media_value
 
@@ -983,7 +1019,7 @@ class Decoder:
         """
         parameter_name = expected_value = ''
         try:
-            parameter_value = Decoder.decode_integer_value(byte_iter)
+            parameter_value = Decoder.preview_integer_value(byte_iter)
         except DecodeError:
             raise DecodeError('Invalid well-known parameter token: could '
                               'not read integer value representing it')
@@ -991,6 +1027,7 @@ class Decoder:
         wk_params = get_well_known_parameters(version)
         if parameter_value in wk_params:
             parameter_name, expected_value = wk_params[parameter_value]
+            Decoder.decode_integer_value(byte_iter)
         else:
             #If this is reached, the parameter isn't a WSP well-known one
             raise DecodeError('Invalid well-known parameter token: could '
@@ -1322,13 +1359,14 @@ class Decoder:
                  (<str:header_name>, <str:header_value>)
         :rtype: tuple
         """
-        field_value = Decoder.decode_short_integer(byte_iter)
+        byte = byte_iter.preview()
+        byte_iter.reset_preview()
+        field_value = Decoder.decode_short_integer_from_byte(byte)
         hdr_fields = get_header_field_names('1.4')
-        # TODO: *technically* this can fail, but then we have already
-        # read a byte... should fix?
         if field_value not in xrange(len(hdr_fields)):
             raise DecodeError('Invalid Header Field value: %d' % field_value)
 
+        byte_iter.next()
         field_name = hdr_fields[field_value]
 
         # TODO: make this flow better, and implement it in
-- 
2.43.0


From a31c726a1a9a0f821fd80807e6965b05a6a377ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:06 +0000
Subject: [PATCH 41/54] fix: decode parameters of WSP 1.3 and 1.4, and textual
 ones

Their values were taken for untyped parameters.
---
 messaging/mms/wsp_pdu.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 292ae45..0893369 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -931,12 +931,19 @@ class Decoder:
                  (<parameter name>, <parameter value>)
         :rtype: tuple
         """
-        token, value_type = Decoder.decode_well_known_parameter(byte_iter)
+        # a decoder has to know the parameters of all versions
+        token, value_type = Decoder.decode_well_known_parameter(byte_iter,
+                                                                '1.4')
         typed_value = ''
         try:
             typed_value = getattr(Decoder, 'decode_%s' % value_type)(byte_iter)
-        except DecodeError, msg:
-            raise DecodeError('Could not decode Typed-parameter: %s' % msg)
+        except DecodeError:
+            # [5]: If the value cannot be encoded using the expected type, it
+            # shall be encoded as text
+            try:
+                typed_value = Decoder.decode_text_value(byte_iter)
+            except DecodeError, msg:
+                raise DecodeError('Could not decode Typed-parameter: %s' % msg)
         except:
             debug('A fatal error occurred, probably due to an '
                   'unimplemented decoding operation')
-- 
2.43.0


From 4eb78ded3bb786f6ae5f2d75e0e59d95ad862eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:16 +0000
Subject: [PATCH 42/54] fix: parameters of Accept values

All of the value has to be consumed, and nothing more.
---
 messaging/mms/wsp_pdu.py | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 0893369..a9b3674 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1270,23 +1270,13 @@ class Decoder:
         except DecodeError:
             # ...now try Accept-general-form
             value_length = Decoder.decode_value_length(byte_iter)
-            try:
-                media = Decoder.decode_well_known_media(byte_iter)
-            except DecodeError:
-                media = Decoder.decode_extension_media(byte_iter)
+            value_bytes = array.array('B')
+            for i in xrange(value_length):
+                value_bytes.append(byte_iter.next())
 
-            # Check for the Q-Token (to see if there are Accept-parameters)
-            if byte_iter.preview() == 128:
-                byte_iter.next()
-                q_value = Decoder.decode_q_value(byte_iter)
-                try:
-                    accept_extension = Decoder.decode_parameter(byte_iter)
-                except DecodeError:
-                    # Just set an empty iterable
-                    accept_extension = []
-
-            byte_iter.reset_preview()
-            accept_value = media
+            # what follows the media type is discarded
+            accept_value = Decoder.decode_media_type(
+                                            PreviewIterator(value_bytes))
 
         return accept_value
 
-- 
2.43.0


From 98971885b3de1533902866e1ff4b94cc25614c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 43/54] fix: encode versions such as 1.05 as text

It was encoded as 1.5.
---
 messaging/mms/wsp_pdu.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index a9b3674..1775bc7 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1627,6 +1627,10 @@ class Encoder:
                 if major_version < 1 or major_version > 7:
                     raise ValueError('Major version must be in range 1-7')
 
+                if version != '.'.join([str(int(n))
+                                        for n in version.split('.')]):
+                    raise ValueError('A number is not written as such')
+
                 major = major_version << 4
                 if len(version.split('.')) == 2:
                     minor_version = int(version.split('.')[1])
-- 
2.43.0


From a020e46bdcc6d4f177ccd66034e6221eaa70bd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 44/54] fix: refuse to encode negative uintvars

---
 messaging/mms/wsp_pdu.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 1775bc7..7c43143 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1487,6 +1487,9 @@ class Encoder:
         :return: the binary-encoded uint_var, as a list of byte values
         :rtype: list
         """
+        if uint < 0:
+            raise EncodeError('Cannot encode a negative uintvar')
+
         uint_var = [uint & 0x7f]
         # Since this is the lowest entry, we do not set the continue bit to 1
         uint = uint >> 7
-- 
2.43.0


From 79ae8d01e529ad58fb50925d5cdf0bc462055059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:31 +0000
Subject: [PATCH 45/54] fix: do not take an invalid MMS header value for
 another header

---
 messaging/mms/mms_pdu.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/messaging/mms/mms_pdu.py b/messaging/mms/mms_pdu.py
index 59a0927..92bb5aa 100644
--- a/messaging/mms/mms_pdu.py
+++ b/messaging/mms/mms_pdu.py
@@ -237,10 +237,13 @@ class MMSDecoder(wsp_pdu.Decoder):
                  (<str:header name>, <str/int/float:header value>)
         :rtype: tuple
         """
-        try:
+        byte = byte_iter.preview()
+        byte_iter.reset_preview()
+        if byte & 0x80 and byte & 0x7f in mms_field_names:
+            # once the name is consumed, what follows is no other header
             return MMSDecoder.decode_mms_header(byte_iter)
-        except wsp_pdu.DecodeError:
-            return wsp_pdu.Decoder.decode_header(byte_iter)
+
+        return wsp_pdu.Decoder.decode_header(byte_iter)
 
     @staticmethod
     def decode_mms_header(byte_iter):
-- 
2.43.0


From 925b4786b04f203bb3dfe3e30d592e984a0960f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:09 +0000
Subject: [PATCH 46/54] fix: encode versions of more than two numbers as text

---
 messaging/mms/wsp_pdu.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 7c43143..13ffe0f 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1625,7 +1625,9 @@ class Encoder:
         encoded_version_val = []
         # First try short-integer encoding
         try:
-            if len(version.split('.')) <= 2:
+            if len(version.split('.')) > 2:
+                raise ValueError('More than a major and a minor version')
+            else:
                 major_version = int(version.split('.')[0])
                 if major_version < 1 or major_version > 7:
                     raise ValueError('Major version must be in range 1-7')
-- 
2.43.0


From e4669f5f3a841f7f91bf45a0df9f9a09734856fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 47/54] fix: failed decoding of Accept and Pragma values
 consumes nothing

---
 messaging/mms/wsp_pdu.py | 59 ++++++++++++++++++++++++++++++++--------
 1 file changed, 48 insertions(+), 11 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index 13ffe0f..b0c76d7 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -720,6 +720,40 @@ class Decoder:
         finally:
             byte_iter.reset_preview()
 
+    @staticmethod
+    def preview_value_bytes(byte_iter):
+        """
+        Previews the value behind the value length pointed by ``byte_iter``
+
+        ``byte_iter`` is never modified.
+
+        :raise DecodeError: The value_length could not be decoded.
+
+        :return: The length of the value and its value length, and the bytes
+                 of the value
+        :rtype: tuple
+        """
+        byte_iter.reset_preview()
+        try:
+            length = 1
+            value_length = byte_iter.preview()
+            if value_length > 31:
+                raise DecodeError('Invalid Value-length: not short-length, '
+                                  'and no length-quote present')
+
+            if value_length == 31:
+                value_length = 0
+                byte = 0x80
+                while byte & 0x80:
+                    byte = byte_iter.preview()
+                    value_length = value_length << 7 | byte & 0x7f
+                    length += 1
+
+            value_bytes = [byte_iter.preview() for i in xrange(value_length)]
+            return length + value_length, value_bytes
+        finally:
+            byte_iter.reset_preview()
+
     @staticmethod
     def decode_content_type_value(byte_iter):
         """
@@ -1269,14 +1303,13 @@ class Decoder:
             accept_value = Decoder.decode_constrained_media(byte_iter)
         except DecodeError:
             # ...now try Accept-general-form
-            value_length = Decoder.decode_value_length(byte_iter)
-            value_bytes = array.array('B')
-            for i in xrange(value_length):
-                value_bytes.append(byte_iter.next())
+            length, value_bytes = Decoder.preview_value_bytes(byte_iter)
 
             # what follows the media type is discarded
             accept_value = Decoder.decode_media_type(
                                             PreviewIterator(value_bytes))
+            for i in xrange(length):
+                byte_iter.next()
 
         return accept_value
 
@@ -1306,8 +1339,11 @@ class Decoder:
             name, value = 'Cache-control', 'No-cache'
         else:
             byte_iter.reset_preview()
-            value_length = Decoder.decode_value_length(byte_iter)
-            name, value = Decoder.decode_parameter(byte_iter)
+            length, value_bytes = Decoder.preview_value_bytes(byte_iter)
+            name, value = Decoder.decode_parameter(
+                                            PreviewIterator(value_bytes))
+            for i in xrange(length):
+                byte_iter.next()
 
         return name, value
 
@@ -1440,12 +1476,13 @@ class Decoder:
                  (<str:header_name>, <str:header_value>)
         :rtype: tuple
         """
-        # First try decoding the header as a well-known-header
-        try:
+        byte = byte_iter.preview()
+        byte_iter.reset_preview()
+        if byte & 0x80 and byte & 0x7f < len(header_field_names):
+            # once the name is consumed, what follows is no other header
             return Decoder.decode_well_known_header(byte_iter)
-        except DecodeError:
-            # ...now try Application-header encoding
-            return Decoder.decode_application_header(byte_iter)
+
+        return Decoder.decode_application_header(byte_iter)
 
 
 class Encoder:
-- 
2.43.0


From 16b5695004b0cb6220ee6d3bef8aeebcdbb7d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 48/54] fix: durations and times in SMIL

SMIL has no attribute duration, it is dur, and a clock value without unit is
in seconds: every time was a thousand times too long.
---
 messaging/mms/message.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 5f56f66..a0cecfe 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -146,7 +146,7 @@ class MMSMessage:
         # Add pages to body
         for page in self._pages:
             par_node = smil_doc.createElement('par')
-            par_node.setAttribute('duration', str(page.duration))
+            par_node.setAttribute('dur', '%dms' % page.duration)
             # Add the page content information
             if page.image is not None:
                 #TODO: catch unpack exception
@@ -165,8 +165,8 @@ class MMSMessage:
                     if end <= 0 or end > page.duration:
                         end = page.duration
 
-                    image_node.setAttribute('begin', str(max(begin, 0)))
-                    image_node.setAttribute('end', str(end))
+                    image_node.setAttribute('begin', '%dms' % max(begin, 0))
+                    image_node.setAttribute('end', '%dms' % end)
 
                 par_node.appendChild(image_node)
 
@@ -180,8 +180,8 @@ class MMSMessage:
                     if end <= 0 or end > page.duration:
                         end = page.duration
 
-                    text_node.setAttribute('begin', str(max(begin, 0)))
-                    text_node.setAttribute('end', str(end))
+                    text_node.setAttribute('begin', '%dms' % max(begin, 0))
+                    text_node.setAttribute('end', '%dms' % end)
 
                 par_node.appendChild(text_node)
 
@@ -200,8 +200,8 @@ class MMSMessage:
                     if end <= 0 or end > page.duration:
                         end = page.duration
 
-                    audio_node.setAttribute('begin', str(max(begin, 0)))
-                    audio_node.setAttribute('end', str(end))
+                    audio_node.setAttribute('begin', '%dms' % max(begin, 0))
+                    audio_node.setAttribute('end', '%dms' % end)
 
                 par_node.appendChild(audio_node)
 
-- 
2.43.0


From 5ecb14b38b0d79af10e07f2cd909f707830dbadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 49/54] fix: text region of SMIL within the screen

The region started where the root layout, 176 pixels wide, ends.
---
 messaging/mms/message.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index a0cecfe..3e47dbc 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -127,7 +127,7 @@ class MMSMessage:
         layout_node.appendChild(root_layout_node)
 
         areas = (('Image', '0', '0', '176', '144'),
-                 ('Text', '176', '144', '176', '76'))
+                 ('Text', '0', '144', '176', '76'))
 
         for region_id, left, top, width, height in areas:
             region_node = smil_doc.createElement('region')
-- 
2.43.0


From 6b5473b722b35d78936896fdc6fe465de4549831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:24 +0000
Subject: [PATCH 50/54] fix: UserDataHeader.from_bytes took bytes out of its
 caller's array

---
 messaging/sms/udh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/messaging/sms/udh.py b/messaging/sms/udh.py
index fb9f71a..fd3df38 100644
--- a/messaging/sms/udh.py
+++ b/messaging/sms/udh.py
@@ -46,6 +46,7 @@ class UserDataHeader(object):
     @classmethod
     def from_bytes(cls, data):
         udh = cls()
+        data = data[:]
         while len(data):
             iei = data.pop(0)
             ie_len = data.pop(0)
-- 
2.43.0


From cf0e6bdb9fd539ce8592a073d995fe5678fccb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 51/54] fix: the digits *, #, a, b and c of received numbers
 were shown as hexadecimal

---
 messaging/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/messaging/utils.py b/messaging/utils.py
index 854e015..6a15461 100644
--- a/messaging/utils.py
+++ b/messaging/utils.py
@@ -79,7 +79,9 @@ def swap(s):
 
 def swap_number(n):
     data = swap(list(n.replace('f', '')))
-    return ''.join(data)
+    # the values above 9 are no hexadecimal digits (TS 23.040, 9.1.2.3)
+    extended = dict(zip('abcde', '*#abc'))
+    return ''.join([extended.get(digit, digit) for digit in data])
 
 
 def clean_number(n):
-- 
2.43.0


From ffc1e7352237ed9f9824317797e09dc78a1a9c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:31 +0000
Subject: [PATCH 52/54] fix: is_gsm_text printed a traceback for what is no
 text

---
 messaging/sms/gsm0338.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/messaging/sms/gsm0338.py b/messaging/sms/gsm0338.py
index 32a50b5..b5a81ac 100644
--- a/messaging/sms/gsm0338.py
+++ b/messaging/sms/gsm0338.py
@@ -13,8 +13,6 @@
 # 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 import codecs
-import sys
-import traceback
 
 # data from
 # http://snoops.roy202.org/testerman/browser/trunk/plugins/codecs/gsm0338.py
@@ -283,10 +281,8 @@ def is_gsm_text(text):
     """Returns True if ``text`` can be encoded as gsm text"""
     try:
         text.encode("gsm0338")
-    except UnicodeError:
-        return False
-    except:
-        traceback.print_exc(file=sys.stdout)
+    except Exception:
+        # what is no text at all cannot be encoded, either
         return False
 
     return True
-- 
2.43.0


From ae3c73f60c54dcbe55cab515aa2e336e3aa082b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:11 +0000
Subject: [PATCH 53/54] fix: to_file did not report that the last octets could
 not be written

---
 messaging/mms/message.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/messaging/mms/message.py b/messaging/mms/message.py
index 3e47dbc..72a2ba9 100644
--- a/messaging/mms/message.py
+++ b/messaging/mms/message.py
@@ -238,6 +238,8 @@ class MMSMessage:
         data = self.encode()
         with open(filename, 'wb') as f:
             data.tofile(f)
+            # a failure to write them may go unnoticed when it is closed
+            f.flush()
 
     @staticmethod
     def from_data(data):
-- 
2.43.0


From 228d19756b8a9d7ef89b208c122735e3e3212410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:33 +0000
Subject: [PATCH 54/54] fix: encode the Long-integer 0 with an octet

---
 messaging/mms/wsp_pdu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/messaging/mms/wsp_pdu.py b/messaging/mms/wsp_pdu.py
index b0c76d7..505ccf9 100644
--- a/messaging/mms/wsp_pdu.py
+++ b/messaging/mms/wsp_pdu.py
@@ -1622,8 +1622,8 @@ class Encoder:
 
         encoded_long_int = []
         longInt = integer
-        # Encode the Multi-octect-integer
-        while longInt > 0:
+        # Encode the Multi-octect-integer, it has at least one octet
+        while longInt > 0 or not encoded_long_int:
             byte = 0xff & longInt
             encoded_long_int.insert(0, byte)
             longInt = longInt >> 8
-- 
2.43.0

