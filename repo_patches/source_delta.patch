From cedc7f1ebeff1a92dc2b0e965be7a6fa3002974e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:49 +0000
Subject: [PATCH 01/60] fix: match an upstream reply to its query by type and
 full name

The lookup of pending queries compared only the identifier and a 32-bit hash
of the name, so two outstanding queries with the same identifier and name but
different types got each other's replies; and the difference of two unsigned
hashes is not an order, so entries of the search tree could become
unreachable.
---
 mcontext.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mcontext.c b/mcontext.c
index 52aa723..5b289f5 100755
--- a/mcontext.c
+++ b/mcontext.c
@@ -124,9 +124,19 @@ static int ModuleContextCompare(const void *_1, const void *_2)
     if( Id_1 != Id_2 )
     {
         return Id_1 - Id_2;
-    } else {
-        return One->HashValue - Two->HashValue;
     }
+
+    if( One->HashValue != Two->HashValue )
+    {
+        return One->HashValue < Two->HashValue ? -1 : 1;
+    }
+
+    if( One->Type != Two->Type )
+    {
+        return One->Type < Two->Type ? -1 : 1;
+    }
+
+    return strcmp(One->Domain, Two->Domain);
 }
 
 void ModuleContext_Free(ModuleContext *c)
-- 
2.43.0


From 89433976817714678455ad5b3c01f1eac4ab7741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:49 +0000
Subject: [PATCH 02/60] fix: keep the DNS parser inside the message for any
 input

---
 dnsgenerator.c |  28 ++++++---
 dnsparser.c    | 168 +++++++++++++++++++++++++++++++++++++++++++------
 dnsparser.h    |   2 +-
 3 files changed, 172 insertions(+), 26 deletions(-)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 7089b99..d253e7b 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -603,15 +603,22 @@ static int DnsGenerator_CopyNamePart(DnsGenerator *g,
                                      DnsSimpleParserIterator *i
                                      )
 {
-    if( LEFT_LENGTH(g) < DNSCopyLable(i->Parser->RawDns,
-                                      NULL,
-                                      i->CurrentPosition)
-      )
+    int LabelLength = DNSCopyLable(i->Parser->RawDns,
+                                   i->Parser->RawDnsLength,
+                                   NULL,
+                                   i->CurrentPosition
+                                   );
+
+    if( LabelLength < 0 || LEFT_LENGTH(g) < LabelLength )
     {
         return -1;
     }
 
-    g->Itr += DNSCopyLable(i->Parser->RawDns, g->Itr, i->CurrentPosition);
+    g->Itr += DNSCopyLable(i->Parser->RawDns,
+                           i->Parser->RawDnsLength,
+                           g->Itr,
+                           i->CurrentPosition
+                           );
 
     return 0;
 }
@@ -656,11 +663,14 @@ static int DnsGenerator_CopyCName(DnsGenerator *g, DnsSimpleParserIterator *i)
     }
 
     CNameLabelLength = DNSCopyLable(i->Parser->RawDns,
+                                    i->Parser->RawDnsLength,
                                     NULL,
                                     i->RowData(i)
                                     );
 
-    if( DnsGenerator_16Uint(g, CNameLabelLength) != 0 )
+    if( CNameLabelLength < 0 ||
+        DnsGenerator_16Uint(g, CNameLabelLength) != 0
+        )
     {
         return -5;
     }
@@ -670,7 +680,11 @@ static int DnsGenerator_CopyCName(DnsGenerator *g, DnsSimpleParserIterator *i)
         return -6;
     }
 
-    g->Itr += DNSCopyLable(i->Parser->RawDns, g->Itr, i->RowData(i));
+    g->Itr += DNSCopyLable(i->Parser->RawDns,
+                           i->Parser->RawDnsLength,
+                           g->Itr,
+                           i->RowData(i)
+                           );
 
     SET_16_BIT_U_INT(g->NumberOfRecords,
                      GET_16_BIT_U_INT(g->NumberOfRecords) + 1
diff --git a/dnsparser.c b/dnsparser.c
index 445e18c..7bde593 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -2,11 +2,45 @@
 #include "dnsgenerator.h"
 #include "utils.h"
 
+#define DNS_NAME_POINTERS_MAX   127
+#define DNS_LABEL_LENGTH_MAX    63
+#define DNS_NAME_LENGTH_MAX     255
+
 char *DNSJumpOverName(char *NameStart)
 {
     return NameStart + DNSGetHostName(NULL, INT_MAX, NameStart, NULL, 0);
 }
 
+/* Length of the labels of the name at `NameStart', or -1 if they don't end before `End' */
+static int DNSLabelsLength(const char *NameStart, const char *End)
+{
+    const char *NameItr = NameStart;
+
+    while( NameItr < End )
+    {
+        int LabelCount = GET_8_BIT_U_INT(NameItr);
+
+        if( LabelCount == 0 )
+        {
+            return NameItr + 1 - NameStart;
+        }
+
+        if( DNSIsLabelPointerStart(LabelCount) )
+        {
+            return End - NameItr < 2 ? -1 : NameItr + 2 - NameStart;
+        }
+
+        if( LabelCount > DNS_LABEL_LENGTH_MAX )
+        {
+            return -1;
+        }
+
+        NameItr += 1 + LabelCount;
+    }
+
+    return -1;
+}
+
 /* Labels length returned */
 int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart, char *buffer, int BufferLength)
 {
@@ -14,12 +48,26 @@ int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart
     const char *NameItr = NameStart;
     int LabelsLength = 0;
     BOOL Redirected = FALSE;
-    int LabelCount = GET_8_BIT_U_INT(NameItr); /* The amount of characters of the next label */
+    int PointerCount = 0;
+    int LabelCount; /* The amount of characters of the next label */
+
+    if( DNSBody != NULL && NameItr >= DNSBody + DNSBodyLength )
+    {
+        return -1;
+    }
+
+    LabelCount = GET_8_BIT_U_INT(NameItr);
     while( LabelCount != 0 )
     {
         if( DNSIsLabelPointerStart(LabelCount) )
         {
             int LabelPointer = 0;
+
+            if( DNSBody != NULL && NameItr + 1 >= DNSBody + DNSBodyLength )
+            {
+                return -1;
+            }
+
             if( Redirected == FALSE )
             {
                 LabelsLength += 2;
@@ -30,19 +78,33 @@ int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart
                 break;
             }
             LabelPointer = DNSLabelGetPointer(NameItr);
-            if( LabelPointer > DNSBodyLength )
+            if( LabelPointer >= DNSBodyLength ||
+                ++PointerCount > DNS_NAME_POINTERS_MAX
+                )
             {
                 return -1;
             }
-            NameItr = DNSBody + DNSLabelGetPointer(NameItr);
+            NameItr = DNSBody + LabelPointer;
         } else {
+            if( LabelCount > DNS_LABEL_LENGTH_MAX )
+            {
+                return -1;
+            }
+
+            /* There must be something following this label */
             if( DNSBody != NULL &&
-                NameItr + LabelCount > DNSBody + DNSBodyLength
+                NameItr + 1 + LabelCount >= DNSBody + DNSBodyLength
                 )
             {
                 return -1;
             }
 
+            /* A name is handled as a string */
+            if( buffer != NULL && memchr(NameItr + 1, 0, LabelCount) != NULL )
+            {
+                return -1;
+            }
+
             if( buffer != NULL )
             {
                 if( BufferItr + LabelCount + 1 - buffer <= BufferLength )
@@ -142,7 +204,11 @@ char *GetAllAnswers(char *DNSBody, int DNSBodyLength, char *Buffer, int BufferLe
     {
         if( i.TextifyData(&i, "   %t: %v\n", BufferItr, BufferLeft) <= 0 )
         {
-            sprintf(BufferItr, "   And %d More ...\n", ANACount);
+            snprintf(BufferItr,
+                     BufferLength - (BufferItr - Buffer),
+                     "   And %d More ...\n",
+                     ANACount
+                     );
 
             break;
         } else {
@@ -158,35 +224,53 @@ char *GetAllAnswers(char *DNSBody, int DNSBodyLength, char *Buffer, int BufferLe
     return Buffer;
 }
 
-/* Full label length returned, including terminated-zero */
-int DNSCopyLable(const char *DNSBody, char *here, const char *src)
+/* Full label length returned, including terminated-zero; negative for a bad name */
+int DNSCopyLable(const char *DNSBody, int DNSBodyLength, char *here, const char *src)
 {
+    const char *End = DNSBody + DNSBodyLength;
     int FullLength = 0;
+    int PointerCount = 0;
 
-    while( TRUE )
+    while( src < End )
     {
-        if( DNSIsLabelPointerStart(GET_8_BIT_U_INT(src)) )
+        int LabelCount = GET_8_BIT_U_INT(src);
+
+        if( DNSIsLabelPointerStart(LabelCount) )
         {
+            if( src + 1 >= End || ++PointerCount > DNS_NAME_POINTERS_MAX )
+            {
+                return -1;
+            }
+
             src = DNSBody + DNSLabelGetPointer(src);
         } else {
-            ++FullLength;
+            if( LabelCount > DNS_LABEL_LENGTH_MAX || src + LabelCount >= End )
+            {
+                return -1;
+            }
+
+            FullLength += 1 + LabelCount;
+            if( FullLength > DNS_NAME_LENGTH_MAX )
+            {
+                return -1;
+            }
 
             if( here != NULL )
             {
-                *here = *src;
-                ++here;
+                memcpy(here, src, 1 + LabelCount);
+                here += 1 + LabelCount;
             }
 
-            if( *src == '\0' )
+            if( LabelCount == 0 )
             {
-                break;
+                return FullLength;
             }
 
-            ++src;
+            src += 1 + LabelCount;
         }
     }
 
-    return FullLength;
+    return -1;
 }
 
 /**
@@ -365,6 +449,9 @@ static DnsRecordPurpose DnsSimpleParserIterator_DeterminePurpose(
 
 static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)
 {
+    int NameLength;
+    int LeftLength;
+
     if( i->CurrentPosition == NULL )
     {
         i->CurrentPosition = i->Parser->RawDns + DNS_HEADER_LENGTH;
@@ -411,8 +498,21 @@ static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)
         return NULL;
     }
 
-    /* Update record informations */
     i->Purpose =  DnsSimpleParserIterator_DeterminePurpose(i, i->RecordPosition);
+
+    /* The name and the fixed fields must be inside the message */
+    LeftLength = i->Parser->RawDns + i->Parser->RawDnsLength - i->CurrentPosition;
+    NameLength = DNSLabelsLength(i->CurrentPosition, i->CurrentPosition + LeftLength);
+    LeftLength -= NameLength +
+                  (i->Purpose == DNS_RECORD_PURPOSE_QUESTION ? 4 : 10);
+    if( NameLength < 0 || LeftLength < 0 )
+    {
+        i->CurrentPosition = NULL;
+        i->RecordPosition = 0;
+        return NULL;
+    }
+
+    /* Update record informations */
     i->Type = DNSGetRecordType(i->CurrentPosition);
     i->Klass = DNSGetRecordClass(i->CurrentPosition);
 
@@ -424,6 +524,12 @@ static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)
         if( i->Purpose != DNS_RECORD_PURPOSE_QUESTION )
         {
             i->DataLength = DNSGetResourceDataLength(i->CurrentPosition);
+            if( i->DataLength > LeftLength )
+            {
+                i->CurrentPosition = NULL;
+                i->RecordPosition = 0;
+                return NULL;
+            }
         }
 
         return i->CurrentPosition;
@@ -503,6 +609,11 @@ static int DnsSimpleParserIterator_Parse16Uint(DnsSimpleParserIterator *i,
 
     BOOL IsToCache = Format == NULL;
 
+    if( *DataLength < 2 )
+    {
+        return -1;
+    }
+
     if( IsToCache )
     {
         if( 2 > BufferLength )
@@ -570,6 +681,11 @@ static int DnsSimpleParserIterator_Parse32Uint(DnsSimpleParserIterator *i,
 
     BOOL IsToCache = Format == NULL;
 
+    if( *DataLength < 4 )
+    {
+        return -1;
+    }
+
     if( IsToCache )
     {
         if( 4 > BufferLength )
@@ -636,6 +752,11 @@ static int DnsSimpleParserIterator_ParseIPv4(DnsSimpleParserIterator *i,
 
     BOOL IsToCache = Format == NULL;
 
+    if( *DataLength < 4 )
+    {
+        return -1;
+    }
+
     if( IsToCache )
     {
         if( 4 > BufferLength )
@@ -700,6 +821,11 @@ static int DnsSimpleParserIterator_ParseIPv6(DnsSimpleParserIterator *i,
 
     BOOL IsToCache = Format == NULL;
 
+    if( *DataLength < 16 )
+    {
+        return -1;
+    }
+
     if( IsToCache )
     {
         if( 16 > BufferLength )
@@ -747,6 +873,7 @@ static int DnsSimpleParserIterator_ParseIPv6(DnsSimpleParserIterator *i,
         return -1;
     }
 
+    *DataLength -= 16;
     return strlen(Buffer);
 }
 
@@ -999,7 +1126,7 @@ static int DNSRRGetString(const char *Data,
     {
         int n = GET_8_BIT_U_INT(DataItr);
 
-        if( n >= BufferLeft )
+        if( n >= BufferLeft || n >= Data + DataLength - DataItr )
         {
             return -1;
         }
@@ -1097,6 +1224,11 @@ static int DnsSimpleParserIterator_ParseRaw(DnsSimpleParserIterator *i,
         return -1;
     }
 
+    if( strlen(Format) + 1 > BufferLength )
+    {
+        return -1;
+    }
+
     strcpy(Buffer, Format);
 
     if( TypeName == DNS_TYPENAME_UNKNOWN )
diff --git a/dnsparser.h b/dnsparser.h
index 2d1f705..26cbba9 100755
--- a/dnsparser.h
+++ b/dnsparser.h
@@ -141,7 +141,7 @@ typedef struct _DNSHeader{
 /* Convert a DNS message to text */
 char *GetAllAnswers(char *DNSBody, int DNSBodyLength, char *Buffer, int BufferLength);
 
-int DNSCopyLable(const char *DNSBody, char *here, const char *src);
+int DNSCopyLable(const char *DNSBody, int DNSBodyLength, char *here, const char *src);
 
 /**
   New Implementation
-- 
2.43.0


From c41fd7a8685738e428aa1f49844c81cff3cd56e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:22 +0000
Subject: [PATCH 03/60] fix: keep generated DNS records inside the buffer,
 whole and of their own type

---
 dnsgenerator.c | 47 +++++++++++++++++++++++++++++++++++++++--------
 iheader.c      | 10 ++++++++--
 2 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index d253e7b..47c9e3c 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -576,6 +576,11 @@ static int DnsGenerator_RawData(DnsGenerator *g,
         return -5;
     }
 
+    if( LEFT_LENGTH(g) < DataLength )
+    {
+        return -6;
+    }
+
     memcpy(g->Itr, Data, DataLength);
     g->Itr += DataLength;
 
@@ -705,7 +710,7 @@ static int DnsGenerator_CopyA(DnsGenerator *g, DnsSimpleParserIterator *i)
         return 1;
     }
 
-    if( i->Type != DNS_TYPE_A || i->Klass != DNS_CLASS_IN )
+    if( i->Type != DNS_TYPE_A || i->Klass != DNS_CLASS_IN || i->DataLength != 4 )
     {
         return 2;
     }
@@ -763,7 +768,7 @@ static int DnsGenerator_CopyAAAA(DnsGenerator *g, DnsSimpleParserIterator *i)
         return 1;
     }
 
-    if( i->Type != DNS_TYPE_AAAA || i->Klass != DNS_CLASS_IN )
+    if( i->Type != DNS_TYPE_AAAA || i->Klass != DNS_CLASS_IN || i->DataLength != 16 )
     {
         return 2;
     }
@@ -820,6 +825,7 @@ static int StripedLength(const char *Origin, int OriginLength)
     DnsSimpleParserIterator i;
 
     const char *CurrentPosition;
+    int Length = DNS_HEADER_LENGTH;
 
     if( DnsSimpleParser_Init(&p, (char *)Origin, OriginLength, FALSE) != 0 )
     {
@@ -835,14 +841,17 @@ static int StripedLength(const char *Origin, int OriginLength)
            (i.Purpose == DNS_RECORD_PURPOSE_QUESTION ||
                 i.Purpose == DNS_RECORD_PURPOSE_ANSWER
                 )
-           );
-
-    if( CurrentPosition == NULL )
+           )
     {
-        return OriginLength;
-    } else {
-        return CurrentPosition - p.RawDns;
+        /* The end of this record */
+        Length = DNSJumpOverName((char *)CurrentPosition) - p.RawDns + 4;
+        if( i.Purpose == DNS_RECORD_PURPOSE_ANSWER )
+        {
+            Length += 6 + i.DataLength;
+        }
     }
+
+    return Length;
 }
 
 static int DnsGenerator_Generate(DnsGenerator *g,
@@ -855,6 +864,7 @@ static int DnsGenerator_Generate(DnsGenerator *g,
                                  )
 {
     int Ret = -256;
+    char *Start = g->Itr;
 
     switch( Type )
     {
@@ -869,6 +879,11 @@ static int DnsGenerator_Generate(DnsGenerator *g,
     case DNS_TYPE_PTR:
     case DNS_TYPE_NS:
         Ret = g->CName(g, Name, Data, Ttl);
+        if( Ret == 0 )
+        {
+            /* All of them hold just one name */
+            SET_16_BIT_U_INT(DNSJumpOverName(Start), Type);
+        }
         break;
 
     case DNS_TYPE_MX:
@@ -879,6 +894,12 @@ static int DnsGenerator_Generate(DnsGenerator *g,
         break;
     }
 
+    if( Ret != 0 )
+    {
+        /* No partial record */
+        g->Itr = Start;
+    }
+
     return Ret;
 }
 
@@ -923,6 +944,11 @@ int DnsGenerator_Init(DnsGenerator *g,
             }
         }
 
+        if( SourceLength > BufferLength )
+        {
+            return -3;
+        }
+
         memmove(g->Buffer, CopyFrom, SourceLength);
         g->Itr = g->Buffer + SourceLength;
 
@@ -948,6 +974,11 @@ int DnsGenerator_Init(DnsGenerator *g,
         }
 
     } else {
+        if( BufferLength < DNS_HEADER_LENGTH )
+        {
+            return -4;
+        }
+
         g->Itr = g->Buffer + DNS_HEADER_LENGTH;
         g->NumberOfRecords = g->Buffer + 4;
 
diff --git a/iheader.c b/iheader.c
index 497cd01..6f05f3e 100755
--- a/iheader.c
+++ b/iheader.c
@@ -132,9 +132,15 @@ int MsgContext_AddFakeEdns(MsgContext *MsgCtx, int BufferLength)
         return -125;
     }
 
-    while( g.NextPurpose(&g) != DNS_RECORD_PURPOSE_ADDITIONAL );
+    if( DNSGetAdditionalCount(IHEADER_TAIL(h)) == 0 )
+    {
+        while( g.NextPurpose(&g) != DNS_RECORD_PURPOSE_ADDITIONAL );
+    }
 
-    g.EDns(&g, 1280);
+    if( g.EDns(&g, 1280) != 0 )
+    {
+        return -145;
+    }
 
     h->EntityLength = g.Length(&g);
     h->EDNSEnabled = TRUE;
-- 
2.43.0


From 26ca2bfcfbc0b5e55b3bb11ff92a6bdb34f21ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:00 +0000
Subject: [PATCH 04/60] fix: drop messages that do not hold exactly one
 question

---
 iheader.c     | 12 ++++++++++++
 tcpfrontend.c | 24 +++++++++++++-----------
 tcpm.c        | 22 +++++++++++++---------
 udpfrontend.c | 23 ++++++++++++++---------
 udpm.c        | 22 +++++++++++++---------
 5 files changed, 65 insertions(+), 38 deletions(-)

diff --git a/iheader.c b/iheader.c
index 6f05f3e..860d157 100755
--- a/iheader.c
+++ b/iheader.c
@@ -30,6 +30,7 @@ int IHeader_Fill(IHeader *h,
 {
     DnsSimpleParser p;
     DnsSimpleParserIterator i;
+    BOOL HasQuestion = FALSE;
 
     h->Parent = NULL;
     h->RequestTcp = FALSE;
@@ -45,6 +46,11 @@ int IHeader_Fill(IHeader *h,
         return -36;
     }
 
+    if( p.QuestionCount(&p) != 1 )
+    {
+        return -41;
+    }
+
     while( i.Next(&i) != NULL )
     {
         switch( i.Purpose )
@@ -63,6 +69,7 @@ int IHeader_Fill(IHeader *h,
             StrToLower(h->Domain);
             h->HashValue = HASH(h->Domain, 0);
             h->Type = (DNSRecordType)DNSGetRecordType(DNSJumpHeader(DnsEntity));
+            HasQuestion = TRUE;
             break;
 
         case DNS_RECORD_PURPOSE_ADDITIONAL:
@@ -77,6 +84,11 @@ int IHeader_Fill(IHeader *h,
         }
     }
 
+    if( HasQuestion == FALSE )
+    {
+        return -73;
+    }
+
     h->ReturnHeader = ReturnHeader;
 
     if( BackAddress != NULL )
diff --git a/tcpfrontend.c b/tcpfrontend.c
index c8a0693..8b715fe 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -91,17 +91,19 @@ TcpFrontend_Work(void *Unused)
                 RecvState = recv(sock_c, Entity, TCPLength, 0);
                 if( RecvState == TCPLength )
                 {
-                    IHeader_Fill(Header,
-                                 FALSE,
-                                 Entity,
-                                 RecvState,
-                                 NULL,
-                                 sock_c,
-                                 ClientAddr->family,
-                                 Agent
-                                 );
-
-                    MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
+                    if( IHeader_Fill(Header,
+                                     FALSE,
+                                     Entity,
+                                     RecvState,
+                                     NULL,
+                                     sock_c,
+                                     ClientAddr->family,
+                                     Agent
+                                     )
+                        == 0 )
+                    {
+                        MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
+                    }
 
                     if( IsNewConnected )
                     {
diff --git a/tcpm.c b/tcpm.c
index d0d4ed7..cce759e 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -674,15 +674,19 @@ TcpM_Works(TcpM *m)
             TcpCtx->MsgCtx = NULL;
             p2->Add(p2, s, TcpCtx, sizeof(TcpContext));
 
-            IHeader_Fill(Header,
-                         FALSE,
-                         Entity,
-                         State,
-                         NULL,
-                         INVALID_SOCKET,
-                         AF_UNSPEC,
-                         NULL
-                         );
+            if( IHeader_Fill(Header,
+                             FALSE,
+                             Entity,
+                             State,
+                             NULL,
+                             INVALID_SOCKET,
+                             AF_UNSPEC,
+                             NULL
+                             )
+                != 0 )
+            {
+                continue;
+            }
 
             switch( IPMiscMapping_Process(MsgCtx) )
             {
diff --git a/udpfrontend.c b/udpfrontend.c
index b4ef03e..28f44de 100755
--- a/udpfrontend.c
+++ b/udpfrontend.c
@@ -90,15 +90,20 @@ UdpFrontend_Work(void *Unused)
             continue;
         }
 
-        IHeader_Fill(Header,
-                     FALSE,
-                     Entity,
-                     RecvState,
-                     IncomingAddress,
-                     sock,
-                     *f,
-                     Agent
-                     );
+        if( IHeader_Fill(Header,
+                         FALSE,
+                         Entity,
+                         RecvState,
+                         IncomingAddress,
+                         sock,
+                         *f,
+                         Agent
+                         )
+            != 0 )
+        {
+            INFO("Invalid data received from UDP client %s.\n", Agent);
+            continue;
+        }
 
         MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
     }
diff --git a/udpm.c b/udpm.c
index 627f56b..04ef31e 100755
--- a/udpm.c
+++ b/udpm.c
@@ -189,15 +189,19 @@ UdpM_Works(UdpM *m)
         m->CountOfTimeout = 0;
 
         /* Fill IHeader */
-        IHeader_Fill(Header,
-                     FALSE,
-                     Entity,
-                     RecvState,
-                     NULL,
-                     INVALID_SOCKET,
-                     AF_UNSPEC,
-                     NULL
-                     );
+        if( IHeader_Fill(Header,
+                         FALSE,
+                         Entity,
+                         RecvState,
+                         NULL,
+                         INVALID_SOCKET,
+                         AF_UNSPEC,
+                         NULL
+                         )
+            != 0 )
+        {
+            continue;
+        }
 
         switch( IPMiscMapping_Process(MsgCtx) )
         {
-- 
2.43.0


From ce3a018f175847c97044a2c73ed86d6edc95d28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:44 +0000
Subject: [PATCH 05/60] fix: return a redirected response to the very query
 waiting for it

---
 hosts.c    | 33 ++++++++++++++++++++++++++++++---
 iheader.c  |  6 ++++++
 iheader.h  |  3 +++
 mcontext.c |  6 ++++++
 4 files changed, 45 insertions(+), 3 deletions(-)

diff --git a/hosts.c b/hosts.c
index 2da3fed..b9a5a6b 100755
--- a/hosts.c
+++ b/hosts.c
@@ -9,6 +9,8 @@
 
 extern BOOL Ipv6_Enabled;
 
+#define CNAME_REDIRECT_MAX  16
+
 static BOOL BlockIpv6WhenIpv4Exists = FALSE;
 
 static SOCKET   InnerSocket;
@@ -144,6 +146,8 @@ Hosts_SocketLoop(void *Unused)
     IHeader *OuterHeader = (IHeader *)OuterBuffer;
     char    *OuterEntity = OuterBuffer + sizeof(IHeader);
 
+    uint32_t LastSerial = 0;
+
     int State;
     int ret = 0;
 
@@ -203,11 +207,17 @@ Hosts_SocketLoop(void *Unused)
                              NULL
                              );
 
-            if( State < 1 )
+            if( State < (int)(sizeof(IHeader) + sizeof(uint16_t)) )
             {
                 continue;
             }
 
+            if( InnerHeader->Depth >= CNAME_REDIRECT_MAX )
+            {
+                ERRORMSG("Too many CNAME redirections: %s\n", InnerHeader->Domain);
+                continue;
+            }
+
             if( Hosts_GetCName(InnerHeader->Domain, RecursedDomain) != 0 )
             {
                 ERRORMSG("Fatal error 221.\n");
@@ -231,6 +241,13 @@ Hosts_SocketLoop(void *Unused)
                 continue;
             }
 
+            if( ++LastSerial == 0 )
+            {
+                ++LastSerial;
+            }
+
+            InnerHeader->Serial = LastSerial;
+
             MsgCtxStored = Context.Add(&Context, InnerMsgCtx);
             if( MsgCtxStored == NULL )
             {
@@ -239,6 +256,8 @@ Hosts_SocketLoop(void *Unused)
             }
 
             OuterHeader->Parent = (IHeader *)MsgCtxStored;
+            OuterHeader->ParentSerial = LastSerial;
+            OuterHeader->Depth = InnerHeader->Depth + 1;
 
             MMgr_Send(OuterBuffer, SOCKET_CONTEXT_LENGTH);
 
@@ -257,12 +276,20 @@ Hosts_SocketLoop(void *Unused)
                              NULL
                              );
 
-            if( State < 1 )
+            if( State < (int)(sizeof(IHeader) + DNS_HEADER_LENGTH) )
             {
                 continue;
             }
 
             BackTraceHeader = OuterHeader->Parent;
+            if( BackTraceHeader == NULL ||
+                BackTraceHeader->Serial != OuterHeader->ParentSerial
+                )
+            {
+                /* The parent has timed out */
+                continue;
+            }
+
             BackTraceMsgCtx = (MsgContext *)BackTraceHeader;
             DNSCopyQueryIdentifier(InnerHeader + 1, BackTraceHeader + 1);
             if( Context.GenAnswerHeaderAndRemove(&Context, BackTraceMsgCtx, InnerMsgCtx) != 0 )
@@ -274,7 +301,7 @@ Hosts_SocketLoop(void *Unused)
             if( HostsUtils_CombineRecursedResponse((MsgContext *)InnerBuffer,
                                                    SOCKET_CONTEXT_LENGTH,
                                                    OuterEntity,
-                                                   State,
+                                                   State - sizeof(IHeader),
                                                    OuterHeader->Domain
                                                    )
                 != 0 )
diff --git a/iheader.c b/iheader.c
index 860d157..f2aeebb 100755
--- a/iheader.c
+++ b/iheader.c
@@ -10,6 +10,9 @@ static BOOL ap = FALSE;
 void IHeader_Reset(IHeader *h)
 {
     h->Parent = NULL;
+    h->ParentSerial = 0;
+    h->Serial = 0;
+    h->Depth = 0;
     h->RequestTcp = FALSE;
     h->Agent[0] = '\0';
     h->BackAddress.family = AF_UNSPEC;
@@ -33,6 +36,9 @@ int IHeader_Fill(IHeader *h,
     BOOL HasQuestion = FALSE;
 
     h->Parent = NULL;
+    h->ParentSerial = 0;
+    h->Serial = 0;
+    h->Depth = 0;
     h->RequestTcp = FALSE;
     h->EDNSEnabled = FALSE;
 
diff --git a/iheader.h b/iheader.h
index 3e447d9..a5d2da0 100755
--- a/iheader.h
+++ b/iheader.h
@@ -12,6 +12,9 @@ typedef struct _MsgContext MsgContext;
 
 struct _IHeader{
     IHeader     *Parent;    /* Solve CNAME hosts records. */
+    uint32_t    ParentSerial;   /* Serial of the parent. */
+    uint32_t    Serial; /* Not 0 only if it is waiting for its recursed response. */
+    int         Depth;  /* Times of CNAME redirecting. */
     BOOL        RequestTcp; /* Parent is from TCP. */
     time_t      Timestamp;
 
diff --git a/mcontext.c b/mcontext.c
index 5b289f5..1034ce8 100755
--- a/mcontext.c
+++ b/mcontext.c
@@ -49,6 +49,7 @@ static void ModuleContext_Sweep(ModuleContext *c, SweepCallback cb, void *Arg)
             cb(*Context, i + 1, Arg);
         }
 
+        IHeader_Reset((IHeader *)*Context);
         c->d.Delete(&(c->d), *Context);
     }
 
@@ -136,6 +137,11 @@ static int ModuleContextCompare(const void *_1, const void *_2)
         return One->Type < Two->Type ? -1 : 1;
     }
 
+    if( One->Serial != Two->Serial )
+    {
+        return One->Serial < Two->Serial ? -1 : 1;
+    }
+
     return strcmp(One->Domain, Two->Domain);
 }
 
-- 
2.43.0


From 0413908c3047f299e3aa700f9705069bbbf12a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:34 +0000
Subject: [PATCH 06/60] fix: serve TCP clients without blocking, for any
 segmentation, and close their sockets

---
 iheader.c     |  41 ++++++-
 tcpfrontend.c | 298 +++++++++++++++++++++++++++++++++-----------------
 2 files changed, 232 insertions(+), 107 deletions(-)

diff --git a/iheader.c b/iheader.c
index f2aeebb..eafa1ae 100755
--- a/iheader.c
+++ b/iheader.c
@@ -180,6 +180,22 @@ BOOL MsgContext_IsFromTCP(const MsgContext *MsgCtx)
     return (h->BackAddress.family == AF_UNSPEC);
 }
 
+/* Whether the TCP socket still belongs to the client */
+static BOOL MsgContext_IsStillConnected(const IHeader *h)
+{
+    Address_Type Peer;
+    socklen_t AddrLen = sizeof(Peer.Addr);
+
+    memset(&Peer, 0, sizeof(Peer));
+
+    return getpeername(h->SendBackSocket,
+                       (struct sockaddr *)&(Peer.Addr),
+                       &AddrLen
+                       )
+                == 0 &&
+           memcmp(&(Peer.Addr), &(h->BackAddress.Addr), sizeof(Peer.Addr)) == 0;
+}
+
 int MsgContext_SendBack(MsgContext *MsgCtx)
 {
     IHeader *h = (IHeader *)MsgCtx;
@@ -189,18 +205,31 @@ int MsgContext_SendBack(MsgContext *MsgCtx)
     if( MsgContext_IsFromTCP(MsgCtx) )
     {
         /* TCP */
+        int State;
+
+        if( !MsgContext_IsStillConnected(h) )
+        {
+            return -108;
+        }
+
         Content -= 2;
         Length += 2;
 
         DNSSetTcpLength(Content, h->EntityLength);
 
-        if( send(h->SendBackSocket,
-                 Content,
-                 Length,
-                 MSG_NOSIGNAL
-                 )
-            != Length )
+        State = send(h->SendBackSocket,
+                     Content,
+                     Length,
+                     MSG_NOSIGNAL
+                     );
+        if( State != Length )
         {
+            if( State > 0 )
+            {
+                /* The client can't tell where the next message begins */
+                shutdown(h->SendBackSocket, 2);
+            }
+
             /** TODO: Show error */
             return -112;
         }
diff --git a/tcpfrontend.c b/tcpfrontend.c
index 8b715fe..8bed302 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -1,3 +1,5 @@
+#include <string.h>
+#include <time.h>
 #include "tcpfrontend.h"
 #include "socketpuller.h"
 #include "addresslist.h"
@@ -9,131 +11,224 @@ extern BOOL Ipv6_Enabled;
 
 static SocketPuller Frontend;
 
-static void
-#ifdef WIN32
-WINAPI
-#endif
-TcpFrontend_Work(void *Unused)
+/* State of an interface or a client connection */
+typedef struct _TcpClient {
+    Address_Type    Address;    /* An interface, if its `Addr' is unspecified */
+    char            *Context;   /* A `MsgContext' to be received */
+    int             Received;   /* Count of received bytes, including the length field */
+} TcpClient;
+
+/* Connections which will be closed. Their responses may be on the way. */
+#define LINGER_MAX  32
+#define LINGER_TIME 3
+
+static struct {
+    SOCKET  Socket;
+    time_t  Time;
+} Lingers[LINGER_MAX];
+
+static int LingerCount = 0;
+
+static void TcpFrontend_CloseLingers(int LeftCount)
 {
-    char *ReceiveBuffer;
-    IHeader *Header;
+    time_t Now = time(NULL);
+    int n = 0;
 
-    #define LEFT_LENGTH  (SOCKET_CONTEXT_LENGTH - sizeof(IHeader))
-    char *Entity;
+    while( n < LingerCount &&
+           (LingerCount - n > LeftCount || Now - Lingers[n].Time > LINGER_TIME)
+           )
+    {
+        CLOSE_SOCKET(Lingers[n].Socket);
+        ++n;
+    }
 
-    ReceiveBuffer = SafeMalloc(SOCKET_CONTEXT_LENGTH);
-    if( ReceiveBuffer == NULL )
+    LingerCount -= n;
+    memmove(Lingers, Lingers + n, LingerCount * sizeof(Lingers[0]));
+}
+
+static void TcpFrontend_DelClient(SOCKET sock, TcpClient *Client)
+{
+    SafeFree(Client->Context);
+    Frontend.Del(&Frontend, sock);
+
+    TcpFrontend_CloseLingers(LINGER_MAX - 1);
+    Lingers[LingerCount].Socket = sock;
+    Lingers[LingerCount].Time = time(NULL);
+    ++LingerCount;
+}
+
+static void TcpFrontend_Accept(SOCKET sock, sa_family_t Family)
+{
+    TcpClient Client;
+    socklen_t AddrLen = sizeof(Client.Address.Addr);
+    SOCKET sock_c;
+
+    memset(&Client, 0, sizeof(Client));
+
+    sock_c = accept(sock, (struct sockaddr *)&(Client.Address.Addr), &AddrLen);
+    if( sock_c == INVALID_SOCKET )
     {
-        ERRORMSG("No enough memory, 26.\n");
         return;
     }
 
-    Header = (IHeader *)ReceiveBuffer;
-    Entity = ReceiveBuffer + sizeof(IHeader);
+#ifndef WIN32
+    if( sock_c >= FD_SETSIZE )
+    {
+        CLOSE_SOCKET(sock_c);
+        return;
+    }
+#endif
 
-    /* Loop */
-    while( TRUE )
+    Client.Address.family = Family;
+    Client.Context = SafeMalloc(SOCKET_CONTEXT_LENGTH);
+    if( Client.Context == NULL ||
+        SetSocketNonBlock(sock_c, TRUE) != 0 ||
+        Frontend.Add(&Frontend, sock_c, &Client, sizeof(Client)) != 0
+        )
     {
-        SOCKET sock, sock_c;
-        Address_Type *ClientAddr, ClientAddr_c;
-        BOOL IsNewConnected;
+        SafeFree(Client.Context);
+        CLOSE_SOCKET(sock_c);
+    }
+}
 
-        int RecvState;
-        uint16_t TCPLength;
+/* Nonzero returned if the connection should be closed */
+static int TcpFrontend_Receive(SOCKET sock, TcpClient *Client)
+{
+    IHeader *Header = (IHeader *)Client->Context;
+    char *Entity = IHEADER_TAIL(Header);
+    char *Length = Entity - 2;
 
-        char Agent[sizeof(Header->Agent)];
+    char Agent[sizeof(Header->Agent)];
 
-        sock = Frontend.Select(&Frontend,
-                               NULL,
-                               (void **)&ClientAddr,
-                               TRUE,
-                               FALSE,
-                               NULL
-                               );
+    int Wanted, RecvState;
 
-        if( sock == INVALID_SOCKET )
-        {
-            ERRORMSG("Fatal error 58.\n");
-            break;
-        }
+    if( Client->Address.family == AF_INET )
+    {
+        IPv4AddressToAsc(&(Client->Address.Addr.Addr4.sin_addr), Agent);
+    } else {
+        IPv6AddressToAsc(&(Client->Address.Addr.Addr6.sin6_addr), Agent);
+    }
 
-        if( ((struct sockaddr *)ClientAddr)->sa_family == AF_UNSPEC )
-        {
-            socklen_t AddrLen = sizeof(Address_Type);
+    Wanted = Client->Received < 2 ? 2 : 2 + DNSGetTCPLength(Length);
 
-            sock_c = accept(sock, (struct sockaddr *)&(ClientAddr_c.Addr), &AddrLen);
-            if(sock_c == INVALID_SOCKET)
-            {
-                continue;
-            }
+    RecvState = recv(sock,
+                     Length + Client->Received,
+                     Wanted - Client->Received,
+                     0
+                     );
 
-            IsNewConnected = TRUE;
-            ClientAddr_c.family = ClientAddr->family;
-            ClientAddr = &ClientAddr_c;
-        } else {
-            IsNewConnected = FALSE;
-            sock_c = sock;
+    if( RecvState == 0 )
+    {
+        return -1;
+    }
+
+    if( RecvState < 0 )
+    {
+        return FatalErrorDecideding(GET_LAST_ERROR());
+    }
+
+    Client->Received += RecvState;
+    if( Client->Received < Wanted )
+    {
+        return 0;
+    }
+
+    if( Wanted == 2 )
+    {
+        if( DNSGetTCPLength(Length) > SOCKET_CONTEXT_LENGTH - sizeof(IHeader) )
+        {
+            WARNING("TCP client %s segment is too large, discarded.\n", Agent);
+            return -2;
         }
 
-        if( ClientAddr->family == AF_INET )
+        if( DNSGetTCPLength(Length) == 0 )
         {
-            IPv4AddressToAsc(&(((struct sockaddr_in *)ClientAddr)->sin_addr), Agent);
-        } else {
-            IPv6AddressToAsc(&(((struct sockaddr_in6 *)ClientAddr)->sin6_addr), Agent);
+            Client->Received = 0;
         }
 
-        RecvState = recv(sock_c, (char *)&TCPLength, 2, 0);
-        if( RecvState == 2 )
+        return 0;
+    }
+
+    Client->Received = 0;
+
+    if( IHeader_Fill(Header,
+                     FALSE,
+                     Entity,
+                     Wanted - 2,
+                     NULL,
+                     sock,
+                     Client->Address.family,
+                     Agent
+                     )
+        != 0 )
+    {
+        INFO("Invalid data received from TCP client %s.\n", Agent);
+        return 0;
+    }
+
+    /* The socket will belong to another client after it is closed */
+    memcpy(&(Header->BackAddress.Addr),
+           &(Client->Address.Addr),
+           sizeof(Header->BackAddress.Addr)
+           );
+
+    MMgr_Send(Client->Context, SOCKET_CONTEXT_LENGTH);
+
+    return 0;
+}
+
+static void
+#ifdef WIN32
+WINAPI
+#endif
+TcpFrontend_Work(void *Unused)
+{
+    /* Loop */
+    while( TRUE )
+    {
+        SOCKET sock;
+        TcpClient *Client;
+        struct timeval LingerTime = {1, 0};
+        int Err;
+
+        sock = Frontend.Select(&Frontend,
+                               LingerCount > 0 ? &LingerTime : NULL,
+                               (void **)&Client,
+                               TRUE,
+                               FALSE,
+                               &Err
+                               );
+
+        TcpFrontend_CloseLingers(LINGER_MAX);
+
+        if( sock == INVALID_SOCKET )
         {
-            TCPLength = ntohs(TCPLength);
-            if( TCPLength <= LEFT_LENGTH )
+            if( Err != 0 )
             {
-                RecvState = recv(sock_c, Entity, TCPLength, 0);
-                if( RecvState == TCPLength )
-                {
-                    if( IHeader_Fill(Header,
-                                     FALSE,
-                                     Entity,
-                                     RecvState,
-                                     NULL,
-                                     sock_c,
-                                     ClientAddr->family,
-                                     Agent
-                                     )
-                        == 0 )
-                    {
-                        MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
-                    }
-
-                    if( IsNewConnected )
-                    {
-                        Frontend.Add(&Frontend, sock_c, ClientAddr, sizeof(Address_Type));
-                    }
-
-                    continue;
-
-                } else {
-                    INFO("Invalid data received from TCP client %s.\n", Agent);
-                }
-            } else {
-                WARNING("TCP client %s segment is too large, discarded.\n", Agent);
+                ERRORMSG("Fatal error 58.\n");
+                break;
             }
-
-            CLOSE_SOCKET(sock_c);
-        } else if( RecvState == 1 )
-        {
-            INFO("Invalid data received from TCP client %s.\n", Agent);
-            CLOSE_SOCKET(sock_c);
+            continue;
         }
 
-        /* recv failed */
-        if( IsNewConnected == FALSE )
+        if( ((struct sockaddr *)Client)->sa_family == AF_UNSPEC )
         {
-            Frontend.Del(&Frontend, sock_c);
+            TcpFrontend_Accept(sock, Client->Address.family);
+        } else {
+            switch( TcpFrontend_Receive(sock, Client) )
+            {
+            case 0:
+                break;
+
+            case -2:
+                shutdown(sock, 2);
+                /* No break; */
+            default:
+                TcpFrontend_DelClient(sock, Client);
+                break;
+            }
         }
     }
-
-    SafeFree(ReceiveBuffer);
 }
 
 void TcpFrontend_StartWork(void)
@@ -169,14 +264,15 @@ int TcpFrontend_Init(ConfigFileInfo *ConfigInfo, BOOL StartWork)
         return -20;
     }
 
-    if( SocketPuller_Init(&Frontend, sizeof(Address_Type)) != 0 )
+    if( SocketPuller_Init(&Frontend, sizeof(TcpClient)) != 0 )
     {
         return -19;
     }
 
     while( (One = i.Next(&i)) != NULL )
     {
-        Address_Type a, ClientAddr;
+        Address_Type a;
+        TcpClient Interface;
         sa_family_t f;
 
         SOCKET sock;
@@ -221,9 +317,9 @@ int TcpFrontend_Init(ConfigFileInfo *ConfigInfo, BOOL StartWork)
             Ipv6_Enabled = TRUE;
         }
 
-        memset(&ClientAddr, 0, sizeof(Address_Type));
-        ClientAddr.family = f;
-        Frontend.Add(&Frontend, sock, &ClientAddr, sizeof(Address_Type));
+        memset(&Interface, 0, sizeof(TcpClient));
+        Interface.Address.family = f;
+        Frontend.Add(&Frontend, sock, &Interface, sizeof(TcpClient));
         INFO("TCP interface %s opened.\n", One);
         ++Count;
     }
-- 
2.43.0


From 7a50d601ba0c95d270636cec6de606790bf5c5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:33 +0000
Subject: [PATCH 07/60] fix: take whole messages from TCP servers and proxies,
 and skip servers that refuse

---
 tcpm.c | 93 ++++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 62 insertions(+), 31 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index cce759e..d173b4b 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -247,10 +247,20 @@ static int TcpM_Connect(TcpM *m, int ServerIndex, BOOL IsProxy)
 static int TcpM_SendWrapper(SOCKET Sock, const char *Start, int Length)
 {
     time_t t = time(NULL);
+    int Sent = 0;
 
-    while( send(Sock, Start, Length, MSG_NOSIGNAL) != Length )
+    while( Sent < Length )
     {
-        int LastError = GET_LAST_ERROR();
+        int LastError;
+        int State = send(Sock, Start + Sent, Length - Sent, MSG_NOSIGNAL);
+
+        if( State >= 0 )
+        {
+            Sent += State;
+            continue;
+        }
+
+        LastError = GET_LAST_ERROR();
         if( FatalErrorDecideding(LastError) != 0 ||
                 !SocketIsWritable(Sock, TIMEOUT_ms_SEND) ||
                 time(NULL) - t > TIMEOUT_ms_SEND / 1000
@@ -284,6 +294,26 @@ static int TcpM_RecvWrapper(SOCKET Sock, char *Buffer, int BufferSize)
     return Recvlength;
 }
 
+/* Less than `Length' returned if the connection is closed or failed */
+static int TcpM_RecvAll(SOCKET Sock, char *Buffer, int Length)
+{
+    int Received = 0;
+
+    while( Received < Length )
+    {
+        int State = TcpM_RecvWrapper(Sock, Buffer + Received, Length - Received);
+
+        if( State <= 0 )
+        {
+            return Received > 0 ? Received : State;
+        }
+
+        Received += State;
+    }
+
+    return Received;
+}
+
 static int TcpM_ProxyPreparation(SOCKET Sock,
                                  const struct sockaddr  *NestedAddress,
                                  sa_family_t Family
@@ -294,6 +324,8 @@ static int TcpM_ProxyPreparation(SOCKET Sock,
     char NumberOfCharacter;
     unsigned short Port;
     char RecvBuffer[16];
+    char BoundAddress[255 + 2];
+    int BoundLength;
 
     DEBUG("Negotiating with TCP proxy ...\n");
 
@@ -303,7 +335,7 @@ static int TcpM_ProxyPreparation(SOCKET Sock,
         return -1;
     }
 
-    if( TcpM_RecvWrapper(Sock, RecvBuffer, 2) != 2 )
+    if( TcpM_RecvAll(Sock, RecvBuffer, 2) != 2 )
     {
         ERRORMSG("Cannot negotiate with TCP proxy.\n");
         return -2;
@@ -345,7 +377,7 @@ static int TcpM_ProxyPreparation(SOCKET Sock,
         return -4;
     }
 
-    if( TcpM_RecvWrapper(Sock, RecvBuffer, 4) != 4 )
+    if( TcpM_RecvAll(Sock, RecvBuffer, 4) != 4 )
     {
         ERRORMSG("Proxy Cannot communicate with TCP proxy.\n");
         return -9;
@@ -360,23 +392,32 @@ static int TcpM_ProxyPreparation(SOCKET Sock,
     switch( RecvBuffer[3] )
     {
         case 0x01:
-            NumberOfCharacter = 6;
+            BoundLength = 6;
             break;
 
         case 0x03:
-            TcpM_RecvWrapper(Sock, &NumberOfCharacter, 1);
-            NumberOfCharacter += 2;
+            if( TcpM_RecvAll(Sock, BoundAddress, 1) != 1 )
+            {
+                ERRORMSG("Proxy Cannot communicate with TCP proxy.\n");
+                return -12;
+            }
+            BoundLength = GET_8_BIT_U_INT(BoundAddress) + 2;
             break;
 
         case 0x04:
-            NumberOfCharacter = 18;
+            BoundLength = 18;
             break;
 
         default:
             ERRORMSG("Proxy Cannot communicate with TCP proxy.\n");
             return -11;
     }
-    ClearTCPSocketBuffer(Sock, NumberOfCharacter);
+
+    if( TcpM_RecvAll(Sock, BoundAddress, BoundLength) != BoundLength )
+    {
+        ERRORMSG("Proxy Cannot communicate with TCP proxy.\n");
+        return -13;
+    }
 
     INFO("Proxy has Connected to TCP server.\n");
 
@@ -390,7 +431,7 @@ static int TcpM_Send_Actual(TcpM *m, MsgContext *MsgCtx, int SingleServerIndex)
 
     SocketPuller *p;
     TcpContext *TcpCtx;
-    int i, NumOfServers, n = 0;
+    int i, NumOfServers, NumOfConnections, n = 0;
 
     IHeader *h = (IHeader *)MsgCtx;
     char *msg = (char *)(IHEADER_TAIL(h)) - 2;
@@ -415,12 +456,10 @@ static int TcpM_Send_Actual(TcpM *m, MsgContext *MsgCtx, int SingleServerIndex)
 
     DEBUG("Send to Pullers[%d].\n", SingleServerIndex);
 
-    if( TcpM_Connect(m, SingleServerIndex, FALSE) < 1 )
-    {
-        return 0;
-    }
+    NumOfConnections = TcpM_Connect(m, SingleServerIndex, FALSE);
 
-    for( i = 0; i < NumOfServers; ++i )
+    /* Those failed are not counted */
+    for( i = 0; i < NumOfConnections && n < NumOfServers; ++i )
     {
         SOCKET s;
         int Err;
@@ -436,7 +475,7 @@ static int TcpM_Send_Actual(TcpM *m, MsgContext *MsgCtx, int SingleServerIndex)
                 break;
             }
             INFO("No %s TCP connection is established.\n", Type);
-            continue;
+            break;
         } else {
             p->Del(p, s);
         }
@@ -517,7 +556,7 @@ static int TcpM_Cleanup(TcpM *m)
     {
         m->ProxyPuller.Free(&(m->ProxyPuller));
         SocketPullers_Free(m->Proxies);
-        SafeFree(*(m->SocksProxies));
+        SafeFree(m->SocksProxies);
         AddressList_Free(&(m->SocksProxyList));
         SafeFree(m->SocksProxyFamilies);
     }
@@ -617,11 +656,10 @@ TcpM_Works(TcpM *m)
             int State;
             uint16_t TCPLength;
             SocketPuller *p2;
-            char *PartialData;
 
             p->Del(p, s);
 
-            State = TcpM_RecvWrapper(s, (char *)&TCPLength, 2);
+            State = TcpM_RecvAll(s, (char *)&TCPLength, 2);
             if( State != 2 )
             {
                 if( State < 1 )
@@ -653,18 +691,11 @@ TcpM_Works(TcpM *m)
                 continue;
             }
 
-            PartialData = Entity;
-            do
-            {
-                State = TcpM_RecvWrapper(s, PartialData, TCPLength);
-                PartialData += State;
-                TCPLength -= State;
-            } while ( State > 0 && TCPLength > 0 );
-
-            if( TCPLength != 0 )
+            State = TcpM_RecvAll(s, Entity, TCPLength);
+            if( State != TCPLength )
             {
                 WARNING("TCP %s received bad data, len: %d.\n",
-                        m->SocksProxies != NULL ? "proxy" : "server", PartialData - Entity);
+                        m->SocksProxies != NULL ? "proxy" : "server", State);
                 CLOSE_SOCKET(s);
                 continue;
             }
@@ -903,7 +934,7 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
 EXIT_9:
     m->ProxyPuller.FreeWithoutClose(&(m->ProxyPuller));
 EXIT_8:
-    SafeFree(*(m->SocksProxies));
+    SafeFree(m->SocksProxies);
 EXIT_7:
     AddressList_Free(&(m->SocksProxyList));
 
@@ -912,7 +943,7 @@ EXIT_6:
 EXIT_5:
     m->QueryPuller.FreeWithoutClose(&(m->QueryPuller));
 EXIT_4:
-    SafeFree(*(m->Services));
+    SafeFree(m->Services);
 
 EXIT_3:
     AddressList_Free(&(m->ServiceList));
-- 
2.43.0


From 8e7d90578601a85fb2bda19102605033b01640d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:32 +0000
Subject: [PATCH 08/60] fix: match domain rules of any letter case

Names in queries are lowercased before they are matched, but the domains of
DisabledDomain, DisabledList, CacheControl and hosts items were not, so rules
containing upper-case letters never took effect.
---
 hostscontainer.c |  4 ++++
 stringchunk.c    | 19 ++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/hostscontainer.c b/hostscontainer.c
index 1a986cc..132db57 100755
--- a/hostscontainer.c
+++ b/hostscontainer.c
@@ -2,6 +2,7 @@
 #include <ctype.h>
 #include "ipchunk.h"
 #include "hostscontainer.h"
+#include "utils.h"
 #include "logs.h"
 
 typedef struct _TableNode TableNode;
@@ -404,6 +405,9 @@ PUBFUNC HostsRecordType HostsContainer_Load(HostsContainer *Container,
         return HOSTS_TYPE_UNKNOWN;
     }
 
+    /* Domains to be matched are lowercased */
+    StrToLower(Domain);
+
     return HostsContainer_Add(Container, IPOrCName, Domain);
 }
 
diff --git a/stringchunk.c b/stringchunk.c
index ddc6e8c..df8b649 100755
--- a/stringchunk.c
+++ b/stringchunk.c
@@ -134,12 +134,29 @@ int StringChunk_Add_Domain(StringChunk  *dl,
                            int          LengthOfAdditionalData /* The length will not be stored. */
                            )
 {
+    char *Lowercased;
+    int  ret;
+
     if( *Domain == '.' )
     {
         ++Domain;
     }
 
-    return StringChunk_Add(dl, Domain, AdditionalData, LengthOfAdditionalData);
+    /* Domains to be matched are lowercased */
+    Lowercased = SafeMalloc(strlen(Domain) + 1);
+    if( Lowercased == NULL )
+    {
+        return -5;
+    }
+
+    strcpy(Lowercased, Domain);
+    StrToLower(Lowercased);
+
+    ret = StringChunk_Add(dl, Lowercased, AdditionalData, LengthOfAdditionalData);
+
+    SafeFree(Lowercased);
+
+    return ret;
 }
 
 BOOL StringChunk_Match_NoWildCard(StringChunk       *dl,
-- 
2.43.0


From 6f62ca09f8034ec347a74d37015441164a51c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:02 +0000
Subject: [PATCH 09/60] fix: do not read before the buffer of a line of blanks

---
 readline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readline.c b/readline.c
index 2fd69aa..e3df0e5 100755
--- a/readline.c
+++ b/readline.c
@@ -58,7 +58,7 @@ static void EliminateFootSpace(char *str)
 
     if( End >= str )
     {
-        for(; isspace(*End) && End >= str; --End);
+        for(; End >= str && isspace(*End); --End);
         *(End + 1) = '\0';
     }
 
-- 
2.43.0


From 92380bd810b0673d13aff68116b570f9858f154e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:23 +0000
Subject: [PATCH 10/60] fix: keep the owner of every alias when aliases are
 asked for

---
 dnsgenerator.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 47c9e3c..a7b6d1b 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -38,6 +38,7 @@ int DNSCompress(__inout char *DNSBody, __in int DNSBodyLength)
 
     char *LastName;
     char *CurrentName;
+    DNSRecordType QuestionType;
 
     if( DnsSimpleParser_Init(&p, DNSBody, DNSBodyLength, FALSE) != 0 )
     {
@@ -55,6 +56,8 @@ int DNSCompress(__inout char *DNSBody, __in int DNSBodyLength)
         return -3;
     }
 
+    QuestionType = i.Type;
+
     i.GotoAnswers(&i);
     while( (CurrentName = i.Next(&i)) != NULL &&
            i.Purpose == DNS_RECORD_PURPOSE_ANSWER
@@ -87,8 +90,8 @@ int DNSCompress(__inout char *DNSBody, __in int DNSBodyLength)
         /* Yeah, changed that */
         p.RawDnsLength -= LengthDifference;
 
-        /* Whether to set `LastName' */
-        if( i.Type == DNS_TYPE_CNAME )
+        /* Whether to set `LastName', aliases are not followed if they are asked for */
+        if( i.Type == DNS_TYPE_CNAME && QuestionType != DNS_TYPE_CNAME )
         {
             LastName = i.RowData(&i);
         }
-- 
2.43.0


From c20297862dc8c78fec787e0c8047a33457f084a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:49 +0000
Subject: [PATCH 11/60] fix: cache whole record sets or none

---
 dnscache.c | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/dnscache.c b/dnscache.c
index 288d9f5..bcf856a 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -630,11 +630,32 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
     return 0;
 }
 
+/* Forget all the records of the same name, type and class as the current one */
+static void DNSCache_ExpireItems(DnsSimpleParserIterator *i, time_t CurrentTime)
+{
+    char        Name[253 + 1];
+    char        Name_Type_Class[253 + 1 + 4 + 1 + 4 + 1];
+    Cht_Node    *Node = NULL;
+
+    if( i->GetName(i, Name, sizeof(Name)) < 0 )
+    {
+        return;
+    }
+
+    snprintf(Name_Type_Class, sizeof(Name_Type_Class), "%s %X %X", Name, i->Type, i->Klass);
+
+    while( (Node = DNSCache_FindFromCache(Name_Type_Class, strlen(Name_Type_Class) + 1, Node, CurrentTime)) != NULL )
+    {
+        Node->TimeAdded = CurrentTime - Node->TTL;
+    }
+}
+
 int DNSCache_AddItemsToCache(MsgContext *MsgCtx, BOOL IsFirst)
 {
     IHeader *Header = (IHeader *)MsgCtx;
     char *DnsEntity = IHEADER_TAIL(Header);
     const CtrlContent *TtlContent = NULL;
+    BOOL Complete = TRUE;
 
     DnsSimpleParser p;
     DnsSimpleParserIterator i;
@@ -647,6 +668,12 @@ int DNSCache_AddItemsToCache(MsgContext *MsgCtx, BOOL IsFirst)
         return -1;
     }
 
+    /* Some records are missing */
+    if( p._Flags.Truncated(&p) )
+    {
+        return 0;
+    }
+
     if( DnsSimpleParserIterator_Init(&i, &p) != 0 )
     {
         return -2;
@@ -664,7 +691,22 @@ int DNSCache_AddItemsToCache(MsgContext *MsgCtx, BOOL IsFirst)
 
         if( RightPurpose && IsValidCachedType(i.Type) && CachedClass )
         {
-            DNSCache_AddAItemToCache(&i, time(NULL), TtlContent);
+            if( DNSCache_AddAItemToCache(&i, time(NULL), TtlContent) != 0 )
+            {
+                Complete = FALSE;
+            }
+        }
+    }
+
+    /* No incomplete record sets */
+    if( !Complete && DnsSimpleParserIterator_Init(&i, &p) == 0 )
+    {
+        while( i.Next(&i) != NULL )
+        {
+            if( i.Purpose != DNS_RECORD_PURPOSE_QUESTION )
+            {
+                DNSCache_ExpireItems(&i, time(NULL));
+            }
         }
     }
 
-- 
2.43.0


From 7aee1ed87b0ecc97f2ba642a92af3eac7dab1a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:28 +0000
Subject: [PATCH 12/60] fix: keep names with dots inside labels out of the
 cache

---
 dnscache.c | 48 ++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 46 insertions(+), 2 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index bcf856a..4747a32 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -379,6 +379,50 @@ static BOOL IsValidCachedType(DNSRecordType Type)
             Type == DNS_TYPE_MX;
 }
 
+/* Names are kept as strings, their labels must not have dots */
+static BOOL IsStringName(const DnsSimpleParserIterator *i, const char *Name)
+{
+    char        Labels[255];
+    const char  *Label;
+
+    if( DNSCopyLable(i->Parser->RawDns, i->Parser->RawDnsLength, Labels, Name) < 0 )
+    {
+        return FALSE;
+    }
+
+    for( Label = Labels; *Label != 0; Label += 1 + GET_8_BIT_U_INT(Label) )
+    {
+        if( memchr(Label + 1, '.', GET_8_BIT_U_INT(Label)) != NULL )
+        {
+            return FALSE;
+        }
+    }
+
+    return TRUE;
+}
+
+static BOOL HasStringNames(DnsSimpleParserIterator *i)
+{
+    if( !IsStringName(i, i->CurrentPosition) )
+    {
+        return FALSE;
+    }
+
+    switch( i->Type )
+    {
+    case DNS_TYPE_CNAME:
+    case DNS_TYPE_PTR:
+    case DNS_TYPE_NS:
+        return i->DataLength > 0 && IsStringName(i, i->RowData(i));
+
+    case DNS_TYPE_MX:
+        return i->DataLength > 2 && IsStringName(i, i->RowData(i) + 2);
+
+    default:
+        return TRUE;
+    }
+}
+
 static int32_t DNSCache_GetAvailableChunk(uint32_t Length, Cht_Node **Out)
 {
     int32_t NodeNumber;
@@ -691,7 +735,7 @@ int DNSCache_AddItemsToCache(MsgContext *MsgCtx, BOOL IsFirst)
 
         if( RightPurpose && IsValidCachedType(i.Type) && CachedClass )
         {
-            if( DNSCache_AddAItemToCache(&i, time(NULL), TtlContent) != 0 )
+            if( !HasStringNames(&i) || DNSCache_AddAItemToCache(&i, time(NULL), TtlContent) != 0 )
             {
                 Complete = FALSE;
             }
@@ -869,7 +913,7 @@ static int DNSCache_GetByQuestion(__inout DnsGenerator *g,
         return -4;
     }
 
-    if( i.GetName(&i, Name, sizeof(Name)) < 0 )
+    if( !IsStringName(&i, i.CurrentPosition) || i.GetName(&i, Name, sizeof(Name)) < 0 )
     {
         return -3;
     }
-- 
2.43.0


From f2d41e801e7980c0a2c148802f074a9ee078e21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:25 +0000
Subject: [PATCH 13/60] fix: apply TTL rules to the names they are about

---
 dnscache.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index 4747a32..28561b6 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -253,13 +253,13 @@ int DNSCache_Init(ConfigFileInfo *ConfigInfo)
 
     if( OverrideTTL > -1 )
     {
-        CacheTtlCrtl_Add(TtlCtrl, "*", TTL_STATE_FIXED, 1, OverrideTTL, TRUE);
+        CacheTtlCrtl_Add(TtlCtrl, "*", TTL_STATE_FIXED, 1, OverrideTTL, TTL_CTRL_INFECTION_AGGRESSIVLY);
     } else {
         if( TTLMultiple < 1 )
         {
             ERRORMSG("Invalid `MultipleTTL'.\n");
         } else if( TTLMultiple > 1 ){
-            CacheTtlCrtl_Add(TtlCtrl, "*", TTL_STATE_VARIABLE, TTLMultiple, 0, TRUE);
+            CacheTtlCrtl_Add(TtlCtrl, "*", TTL_STATE_VARIABLE, TTLMultiple, 0, TTL_CTRL_INFECTION_AGGRESSIVLY);
         }
     }
 
@@ -509,6 +509,7 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
 {
     char            Buffer[512]; /* covers most cases */
     char            *Item = Buffer + 1;
+    char            Name[253 + 1];
     int             Length;
 
     /* Iterator of `Buffer' */
@@ -520,11 +521,16 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
     Buffer[0] = CACHE_START;
 
     /* Assign the name of the cache */
-    if( i->GetName(i, Item, sizeof(Buffer) -1) < 0 )
+    if( i->GetName(i, Item, sizeof(Buffer) -1) < 0 ||
+        i->GetName(i, Name, sizeof(Name)) < 0
+        )
     {
         return -1;
     }
 
+    /* TTL schemes are of lower case names */
+    StrToLower(Name);
+
     /* Jump just over the name, right at '\0' */
     BufferItr = Item + strlen(Item);
     if( BufferItr >= Buffer + sizeof(Buffer) )
@@ -595,7 +601,7 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
                     break;
 
                 case TTL_CTRL_INFECTION_PASSIVLY:
-                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Name);
                     if( TtlContent == NULL )
                     {
                         TtlContent = InfectedTtlContent;
@@ -603,11 +609,11 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
                     break;
 
                 case TTL_CTRL_INFECTION_NONE:
-                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Name);
                     break;
             }
         } else {
-            TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+            TtlContent = CacheTtlCrtl_Get(TtlCtrl, Name);
         }
 
         if( TtlContent != NULL )
-- 
2.43.0


From df0f3f7edc593bafda25bcf071e25894fcfd8507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:13 +0000
Subject: [PATCH 14/60] fix: find every address block, nested ones too

Blocks may contain each other, so they have no order by containment: searching
them as a tree with that comparison missed blocks. Keep them by masked prefix
and look for the longest one.
---
 ipchunk.c | 53 +++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/ipchunk.c b/ipchunk.c
index ee4396c..d7e44bc 100755
--- a/ipchunk.c
+++ b/ipchunk.c
@@ -218,6 +218,51 @@ static int Contain(IpElement *New, IpElement *Elm)
     }
 }
 
+/* Keep the prefix of an address only, so that equal prefixes are equal bytes. */
+static void IpSet_Mask(IpSet *ipSet)
+{
+    unsigned char *b = ipSet->Ip.Addr;
+    int Bits = ipSet->PrefixBits;
+    int Bytes = 16;
+
+    if( IpAddr_BitLength(&(ipSet->Ip)) == 32 )
+    {
+        b += 12;
+        Bytes = 4;
+    }
+
+    for(; Bytes > 0; --Bytes, ++b, Bits -= 8)
+    {
+        if( Bits <= 0 )
+        {
+            *b = 0;
+        } else if( Bits < 8 )
+        {
+            *b &= 0xff << (8 - Bits);
+        }
+    }
+}
+
+/* A total order of masked prefixes, as prefixes may contain each other. */
+static int CompareCidr(IpElement *New, IpElement *Elm)
+{
+    IpSet *ipSetNew = &(New->IpSet);
+    IpSet *ipSetElm = &(Elm->IpSet);
+    int BitsNew = IpAddr_BitLength(&(ipSetNew->Ip));
+    int BitsElm = IpAddr_BitLength(&(ipSetElm->Ip));
+
+    if( BitsNew != BitsElm )
+    {
+        return BitsNew - BitsElm;
+    }
+
+    if( ipSetNew->PrefixBits != ipSetElm->PrefixBits )
+    {
+        return ipSetNew->PrefixBits - ipSetElm->PrefixBits;
+    }
+
+    return memcmp(ipSetNew->Ip.Addr, ipSetElm->Ip.Addr, 16);
+}
 
 void IpChunk_Free(IpChunk *ic)
 {
@@ -234,7 +279,7 @@ int IpChunk_Init(IpChunk *ic)
         return -1;
     }
 
-    if( Bst_Init(&(ic->CidrChunk), sizeof(IpElement), (CompareFunc)Contain) != 0 )
+    if( Bst_Init(&(ic->CidrChunk), sizeof(IpElement), (CompareFunc)CompareCidr) != 0 )
     {
         goto EXIT_1;
     }
@@ -305,6 +350,7 @@ int IpChunk_Add(IpChunk *ic,
     {
         elm = ic->AddrChunk.Add(&(ic->AddrChunk), &New);
     } else {
+        IpSet_Mask(&(New.IpSet));
         elm = ic->CidrChunk.Add(&(ic->CidrChunk), &New);
     }
 
@@ -339,8 +385,11 @@ BOOL IpChunk_Find(IpChunk *ic, unsigned char *Ip, int IpBytes, int *Type, const
     Key.Data = NULL;
 
     Result = ic->AddrChunk.Search(&(ic->AddrChunk), &Key, NULL);
-    if( Result == NULL )
+    /* The longest prefix */
+    while( Result == NULL && Key.IpSet.PrefixBits >= 0 )
     {
+        --(Key.IpSet.PrefixBits);
+        IpSet_Mask(&(Key.IpSet));
         Result = ic->CidrChunk.Search(&(ic->CidrChunk), &Key, NULL);
     }
 
-- 
2.43.0


From d4e5587b30f1e9925143a6ee154b71f1d1ef02f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:39 +0000
Subject: [PATCH 15/60] fix: index the cache file again when reloading it

A process that is killed while it stores or removes an item leaves a node half
made, lists half linked or the header behind. Nodes carry all that is needed,
so rebuild the index from those that are complete.
---
 cacheht.c  | 24 ++++++++++++++++++++----
 cacheht.h  |  2 ++
 dnscache.c | 43 +++++++++++++++++++++++++++++++++++++++++--
 3 files changed, 63 insertions(+), 6 deletions(-)

diff --git a/cacheht.c b/cacheht.c
index acca20f..2e13a4a 100755
--- a/cacheht.c
+++ b/cacheht.c
@@ -51,10 +51,19 @@ int CacheHT_Init(CacheHT *h, char *BaseAddr, int CacheSize)
     return 0;
 }
 
+/* Only nodes are kept, they need to be indexed again */
 int CacheHT_ReInit(CacheHT *h, char *BaseAddr, int CacheSize)
 {
-    h->Slots.Data = BaseAddr + CacheSize - (h->Slots.DataLength) * (h->Slots.Used);
-    h->NodeChunk.Data = h->Slots.Data - h->NodeChunk.DataLength;
+    int NodeCount = h->NodeChunk.Used;
+
+    CacheHT_Init(h, BaseAddr, CacheSize);
+
+    if( NodeCount > 0 && NodeCount <= (h->Slots.Data - BaseAddr) / (int)sizeof(Cht_Node) )
+    {
+        h->NodeChunk.Used = NodeCount;
+    }
+
+    FreeNodeCount = 0;
 
     return 0;
 }
@@ -77,6 +86,7 @@ static int CacheHT_CreateNewNode(CacheHT *h, uint32_t ChunkSize, Cht_Node **Out,
 
     NewNode->Length = ChunkSize;
     NewNode->UsedLength = 0;
+    NewNode->TTL = 0;
 
     if( Out != NULL )
     {
@@ -343,6 +353,13 @@ static int CacheHT_AddTo2DList(CacheHT *h, int32_t SubScriptOfNode, Cht_Node *No
     return 0;
 }
 
+int CacheHT_AddFreeNode(CacheHT *h, int32_t SubScriptOfNode, Cht_Node *Node)
+{
+    ++FreeNodeCount;
+
+    return CacheHT_AddTo2DList(h, SubScriptOfNode, Node);
+}
+
 int CacheHT_RemoveFromSlot(CacheHT *h, int32_t SubScriptOfNode, Cht_Node *Node)
 {
     Array       *NodeChunk = &(h->NodeChunk);
@@ -373,8 +390,7 @@ int CacheHT_RemoveFromSlot(CacheHT *h, int32_t SubScriptOfNode, Cht_Node *Node)
      */
     if( SubScriptOfNode != NodeChunk->Used - 1 )
     {
-        CacheHT_AddTo2DList(h, SubScriptOfNode, Node);
-        ++FreeNodeCount;
+        CacheHT_AddFreeNode(h, SubScriptOfNode, Node);
     } else {
         --(NodeChunk->Used);
     }
diff --git a/cacheht.h b/cacheht.h
index 859635c..e190fba 100755
--- a/cacheht.h
+++ b/cacheht.h
@@ -48,6 +48,8 @@ int CacheHT_InsertToSlot(CacheHT    *h,
                          const uint32_t *HashValue
                          );
 
+int CacheHT_AddFreeNode(CacheHT *h, int32_t SubScriptOfNode, Cht_Node *Node);
+
 int CacheHT_RemoveFromSlot(CacheHT *h, int32_t SubScriptOfNode, Cht_Node *Node);
 
 Cht_Node *CacheHT_Get(CacheHT *h, const char *Key, const Cht_Node *Start, const uint32_t *HashValue);
diff --git a/dnscache.c b/dnscache.c
index 28561b6..1afb58d 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -128,6 +128,8 @@ static BOOL IsReloadable(void)
 static void ReloadCache(void)
 {
     struct _Header  *Header = (struct _Header *)MapStart;
+    Array           *NodeChunk;
+    int32_t         loop;
 
     INFO("Reloading the cache ...\n");
 
@@ -138,6 +140,43 @@ static void ReloadCache(void)
     CacheEnd = &(Header->End);
     CacheCount = &(Header->CacheCount);
 
+    (*CacheEnd) = sizeof(struct _Header);
+    (*CacheCount) = 0;
+
+    /* The program may have been ended while it was changing the cache:
+       index what is complete again, and drop the rest. */
+    NodeChunk = &(CacheInfo->NodeChunk);
+    for( loop = 0; loop < NodeChunk->Used; ++loop )
+    {
+        Cht_Node    *Node = (Cht_Node *)Array_GetBySubscript(NodeChunk, loop);
+        const char  *Item = MapStart + (*CacheEnd);
+        const char  *Boundary = (char *)Array_GetBySubscript(NodeChunk, NodeChunk->Used - 1);
+
+        if( Node->Offset != (*CacheEnd) ||
+            Node->Length == 0 ||
+            Node->Length > Boundary - Item
+            )
+        {
+            NodeChunk->Used = loop;
+            break;
+        }
+
+        if( Node->TTL > 0 &&
+            *Item == CACHE_START &&
+            Node->UsedLength <= Node->Length &&
+            memchr(Item, 0, Node->UsedLength) != NULL
+            )
+        {
+            CacheHT_InsertToSlot(CacheInfo, Item + 1, loop, Node, NULL);
+            ++(*CacheCount);
+        } else {
+            Node->TTL = 0;
+            CacheHT_AddFreeNode(CacheInfo, loop, Node);
+        }
+
+        (*CacheEnd) += Node->Length;
+    }
+
     INFO("Cache reloaded, containing %d entries for %d items.\n", CacheInfo->NodeChunk.Used, (*CacheCount));
 }
 
@@ -657,11 +696,11 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
                 RecordTTL = DNSCache_CacheMinTTL(Item, strlen(Item) + 1, RecordTTL, CurrentTime);
             }
 
+            Node->TimeAdded = CurrentTime;
+
             /* Assign TTL */
             Node->TTL = RecordTTL;
 
-            Node->TimeAdded = CurrentTime;
-
             /* Index this entry on the hash table */
             CacheHT_InsertToSlot(CacheInfo, Item, Subscript, Node, NULL);
 
-- 
2.43.0


From 70886db3aa4f813420661e8396453df40dba8598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:46 +0000
Subject: [PATCH 16/60] fix: do not free modules whose threads run when a group
 reload fails

---
 mmgr.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mmgr.c b/mmgr.c
index 6d93aa3..4f1a3a1 100755
--- a/mmgr.c
+++ b/mmgr.c
@@ -115,8 +115,6 @@ static int Udp_Init_Core(ModuleMap *ModuleMap,
         return -101;
     }
 
-    NewM->ModuleName = "UDP";
-
     strncpy(ParallelOnOff, Parallel, sizeof(ParallelOnOff));
     ParallelOnOff[sizeof(ParallelOnOff) - 1] = '\0';
     StrToLower(ParallelOnOff);
@@ -134,6 +132,7 @@ static int Udp_Init_Core(ModuleMap *ModuleMap,
         return -128;
     }
 
+    NewM->ModuleName = "UDP"; /* Only for those running */
     NewM->Send = (SendFunc)(NewM->ModuleUnion.Udp.Send);
 
     if( MappingAModule(ModuleMap, NewM, DomainList) != 0 )
@@ -203,8 +202,6 @@ static int Tcp_Init_Core(ModuleMap *ModuleMap,
         return -192;
     }
 
-    NewM->ModuleName = "TCP";
-
     strncpy(OptionString, Parallel, sizeof(OptionString));
     OptionString[sizeof(OptionString) - 1] = '\0';
     StrToLower(OptionString);
@@ -231,6 +228,7 @@ static int Tcp_Init_Core(ModuleMap *ModuleMap,
         return -180;
     }
 
+    NewM->ModuleName = "TCP"; /* Only for those running */
     NewM->Send = (SendFunc)(NewM->ModuleUnion.Tcp.Send);
 
     if( MappingAModule(ModuleMap, NewM, DomainList) != 0 )
@@ -666,6 +664,8 @@ static int Modules_Load(ConfigFileInfo *ConfigInfo)
         return -1;
     }
 
+    NewModuleMap->Modules = NULL;
+    NewModuleMap->ModuleArray = NULL;
     NewModuleMap->Distributor = NULL;
     if( InitChunk(&(NewModuleMap->Distributor)) != 0 )
     {
@@ -709,7 +709,11 @@ static int Modules_Load(ConfigFileInfo *ConfigInfo)
 
     if (ret)
     {
-        goto ModulesFree;
+        /* Threads of the modules already initialized are running */
+        CREATE_THREAD(Modules_SafeCleanup, NewModuleMap, th);
+        DETACH_THREAD(th);
+        INFO("Loading GroupFile(s) failed.\n");
+        return ret;
     }
 
     RWLock_WrLock(ModulesLock);
-- 
2.43.0


From 38160958c137c096f9b22fa0cd9b24722aadc766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:06 +0000
Subject: [PATCH 17/60] fix: keep own copies of server names, group file
 strings are freed after loading

---
 tcpm.c |  7 +++++--
 tcpm.h |  4 ++--
 udpm.c | 10 +++++++++-
 udpm.h |  2 +-
 4 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index d173b4b..d8a96ff 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -566,6 +566,8 @@ static int TcpM_Cleanup(TcpM *m)
     SafeFree(m->Services);
     AddressList_Free(&(m->ServiceList));
     SafeFree(m->ServiceFamilies);
+    SafeFree(m->ServiceName);
+    SafeFree(m->ProxyName);
 
     m->WorkThread = NULL_THREAD;
 
@@ -921,8 +923,9 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
 
     m->Send = TcpM_Send;
 
-    m->ServiceName = Services;
-    m->ProxyName = SocksProxies;
+    /* The strings may not outlive the initialization */
+    m->ServiceName = StringDup(Services);
+    m->ProxyName = StringDup(SocksProxies);
     m->Parallel = Parallel;
     m->IsServer = 1;
 
diff --git a/tcpm.h b/tcpm.h
index 88aa169..82b35ba 100755
--- a/tcpm.h
+++ b/tcpm.h
@@ -19,14 +19,14 @@ struct _TcpM {
 
     int IsServer;
 
-    const char      *ServiceName;
+    char            *ServiceName;
     AddressList     ServiceList;
     struct sockaddr **Services;
     sa_family_t     *ServiceFamilies;
     SocketPuller    QueryPuller;
     SocketPuller    **Agents;
 
-    const char      *ProxyName;
+    char            *ProxyName;
     AddressList     SocksProxyList;
     struct sockaddr **SocksProxies;
     sa_family_t     *SocksProxyFamilies;
diff --git a/udpm.c b/udpm.c
index 04ef31e..de0e984 100755
--- a/udpm.c
+++ b/udpm.c
@@ -60,6 +60,7 @@ static int UdpM_Cleanup(UdpM *m)
 
     SafeFree(m->Parallels.addrs);
     AddressList_Free(&(m->AddrList));
+    SafeFree(m->ServiceName);
 
     m->WorkThread = NULL_THREAD;
 
@@ -405,7 +406,12 @@ int UdpM_Init(UdpM *m, const char *Services, BOOL Parallel)
 
     m->CountOfTimeout = 0;
 
-    m->ServiceName = Services;
+    m->ServiceName = StringDup(Services); /* `Services' may not outlive the initialization */
+    if( m->ServiceName == NULL )
+    {
+        ret = -144;
+        goto EXIT_4;
+    }
     m->IsServer = 1;
 
     EFFECTIVE_LOCK_INIT(m->Lock);
@@ -419,6 +425,8 @@ int UdpM_Init(UdpM *m, const char *Services, BOOL Parallel)
 
     return 0;
 
+EXIT_4:
+    ModuleContext_Free(&(m->Context));
 EXIT_3:
     SafeFree(m->Parallels.addrs);
 EXIT_2:
diff --git a/udpm.h b/udpm.h
index 77655b9..2c673da 100755
--- a/udpm.h
+++ b/udpm.h
@@ -20,7 +20,7 @@ struct _UdpM {
 
     int IsServer;
 
-    const char      *ServiceName;
+    char            *ServiceName;
     AddressList     AddrList;
     struct { /* parallel query informations */
         /* When these two are not NULL, parallel-query is enabled */
-- 
2.43.0


From 10f5c87af30836af2a7a872c0ce8e9e1c4c65250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:22 +0000
Subject: [PATCH 18/60] fix: look at the reloadable lists only with their locks
 held

A reload replaces and frees the hosts, the disabled domains and the IP
substitutions. Whether there is a list was read before its lock was taken,
so that a query could use what a reload was replacing. And a failed reload
of the substitutions freed those in use instead of the new ones.
---
 dynamichosts.c | 51 +++++++++++++++++++++++++++++---------------------
 filter.c       |  8 ++------
 ipmisc.c       | 20 +++++++++-----------
 3 files changed, 41 insertions(+), 38 deletions(-)

diff --git a/dynamichosts.c b/dynamichosts.c
index c7c83e7..6aa0974 100755
--- a/dynamichosts.c
+++ b/dynamichosts.c
@@ -240,19 +240,22 @@ int DynamicHosts_Init(ConfigFileInfo *ConfigInfo)
 
 int DynamicHosts_GetCName(const char *Domain, char *Buffer)
 {
-    int ret;
+    int ret = -198;
 
-    if( MainDynamicContainer == NULL )
+    if( File == NULL )
     {
-        return -198;
+        return ret;
     }
 
     RWLock_RdLock(HostsLock);
 
-    ret = HostsUtils_GetCName(Domain,
-                              Buffer,
-                              (HostsContainer *)MainDynamicContainer
-                              );
+    if( MainDynamicContainer != NULL )
+    {
+        ret = HostsUtils_GetCName(Domain,
+                                  Buffer,
+                                  (HostsContainer *)MainDynamicContainer
+                                  );
+    }
 
     RWLock_UnRLock(HostsLock);
 
@@ -261,19 +264,22 @@ int DynamicHosts_GetCName(const char *Domain, char *Buffer)
 
 BOOL DynamicHosts_TypeExisting(const char *Domain, HostsRecordType Type)
 {
-    BOOL ret;
+    BOOL ret = FALSE;
 
-    if( MainDynamicContainer == NULL )
+    if( File == NULL )
     {
-        return FALSE;
+        return ret;
     }
 
     RWLock_RdLock(HostsLock);
 
-    ret = HostsUtils_TypeExisting((HostsContainer *)MainDynamicContainer,
-                                  Domain,
-                                  Type
-                                  );
+    if( MainDynamicContainer != NULL )
+    {
+        ret = HostsUtils_TypeExisting((HostsContainer *)MainDynamicContainer,
+                                      Domain,
+                                      Type
+                                      );
+    }
 
     RWLock_UnRLock(HostsLock);
 
@@ -282,19 +288,22 @@ BOOL DynamicHosts_TypeExisting(const char *Domain, HostsRecordType Type)
 
 HostsUtilsTryResult DynamicHosts_Try(MsgContext *MsgCtx, int BufferLength)
 {
-    HostsUtilsTryResult ret;
+    HostsUtilsTryResult ret = HOSTSUTILS_TRY_NONE;
 
-    if( MainDynamicContainer == NULL )
+    if( File == NULL )
     {
-        return HOSTSUTILS_TRY_NONE;
+        return ret;
     }
 
     RWLock_RdLock(HostsLock);
 
-    ret = HostsUtils_Try(MsgCtx,
-                         BufferLength,
-                         (HostsContainer *)MainDynamicContainer
-                         );
+    if( MainDynamicContainer != NULL )
+    {
+        ret = HostsUtils_Try(MsgCtx,
+                             BufferLength,
+                             (HostsContainer *)MainDynamicContainer
+                             );
+    }
 
     RWLock_UnRLock(HostsLock);
 
diff --git a/filter.c b/filter.c
index 26d56c4..8998911 100755
--- a/filter.c
+++ b/filter.c
@@ -288,13 +288,9 @@ static BOOL IsDisabledDomain(const char *Domain, uint32_t HashValue)
 {
     int ret;
 
-    if (DisabledDomain == NULL)
-    {
-        return FALSE;
-    }
-
     RWLock_RdLock(DisabledDomainLock);
-    ret = StringChunk_Domain_Match(DisabledDomain, Domain, &HashValue, NULL, NULL, NULL);
+    ret = DisabledDomain != NULL &&
+          StringChunk_Domain_Match(DisabledDomain, Domain, &HashValue, NULL, NULL, NULL);
     RWLock_UnRLock(DisabledDomainLock);
 
     return ret;
diff --git a/ipmisc.c b/ipmisc.c
index ce04ef3..d520aae 100755
--- a/ipmisc.c
+++ b/ipmisc.c
@@ -350,7 +350,7 @@ static int IpMiscMapping_Load(void)
     return 0;
 
 EXIT_2:
-    IPMisc_Free(CurrIpMiscMapping);
+    IPMisc_Free(IpMiscMapping);
 EXIT_1:
     SafeFree(IpMiscMapping);
 
@@ -383,19 +383,17 @@ void IpMiscMapping_Update(void)
 int IPMiscMapping_Process(MsgContext *MsgCtx)
 {
     IHeader *h = (IHeader *)MsgCtx;
-    int ret;
-
-    if( CurrIpMiscMapping == NULL )
-    {
-        return IP_MISC_NOTHING;
-    }
+    int ret = IP_MISC_NOTHING;
 
     RWLock_RdLock(IpMiscMappingLock);
 
-    ret = CurrIpMiscMapping->Process(CurrIpMiscMapping,
-                                   IHEADER_TAIL(h),
-                                   h->EntityLength
-                                   );
+    if( CurrIpMiscMapping != NULL )
+    {
+        ret = CurrIpMiscMapping->Process(CurrIpMiscMapping,
+                                         IHEADER_TAIL(h),
+                                         h->EntityLength
+                                         );
+    }
 
     RWLock_UnRLock(IpMiscMappingLock);
 
-- 
2.43.0


From 1de8b4a8cf646574df2e368bc1bee4620f8d6ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:13 +0000
Subject: [PATCH 19/60] fix: share the states of a group between threads by
 atomic flags

Whether a group is to end, and whether its threads have ended, was passed
between threads by plain variables, and a thread ending at once made its
creator detach a null thread.
---
 common.h |  9 +++++++++
 mmgr.c   | 10 +++++-----
 tcpm.c   | 12 +++++++-----
 tcpm.h   |  6 +++---
 udpm.c   | 21 ++++++++++++---------
 udpm.h   |  8 ++++----
 6 files changed, 40 insertions(+), 26 deletions(-)

diff --git a/common.h b/common.h
index 8b17fb1..6765d96 100755
--- a/common.h
+++ b/common.h
@@ -278,6 +278,15 @@
     #define EFFECTIVE_LOCK_DESTROY(l)   DESTROY_SPIN(l)
 #endif /* _WIN32 */
 
+/* Flags shared by threads without a lock */
+#ifdef __GNUC__
+    #define ATOMIC_GET(v)       __atomic_load_n(&(v), __ATOMIC_ACQUIRE)
+    #define ATOMIC_SET(v, n)    __atomic_store_n(&(v), (n), __ATOMIC_RELEASE)
+#else
+    #define ATOMIC_GET(v)       (v)
+    #define ATOMIC_SET(v, n)    ((v) = (n))
+#endif
+
 #ifdef _WIN32
     #define GetFileDirectory(out)   (GetModulePath(out, sizeof(out)))
 #else /* _WIN32 */
diff --git a/mmgr.c b/mmgr.c
index 4f1a3a1..ed1ac87 100755
--- a/mmgr.c
+++ b/mmgr.c
@@ -624,14 +624,14 @@ Modules_SafeCleanup(ModuleMap *ModuleMap)
             {
                 if( strcmp(M->ModuleName, "UDP") == 0 )
                 {
-                    M->ModuleUnion.Udp.IsServer = 0;
-                    InUse |= M->ModuleUnion.Udp.WorkThread != NULL_THREAD;
-                    InUse |= M->ModuleUnion.Udp.SweepThread != NULL_THREAD;
+                    ATOMIC_SET(M->ModuleUnion.Udp.IsServer, 0);
+                    InUse |= ATOMIC_GET(M->ModuleUnion.Udp.Working);
+                    InUse |= ATOMIC_GET(M->ModuleUnion.Udp.Sweeping);
                 }
                 else if( strcmp(M->ModuleName, "TCP") == 0 )
                 {
-                    M->ModuleUnion.Tcp.IsServer = 0;
-                    InUse |= M->ModuleUnion.Tcp.WorkThread != NULL_THREAD;
+                    ATOMIC_SET(M->ModuleUnion.Tcp.IsServer, 0);
+                    InUse |= ATOMIC_GET(M->ModuleUnion.Tcp.Working);
                 }
             }
         }
diff --git a/tcpm.c b/tcpm.c
index d8a96ff..c033424 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -544,7 +544,7 @@ PUBFUNC int TcpM_Send(TcpM *m,
 
 static int TcpM_Cleanup(TcpM *m)
 {
-    m->IsServer = 0;
+    ATOMIC_SET(m->IsServer, 0);
 
     CLOSE_SOCKET(m->Incoming);
     m->Incoming = INVALID_SOCKET;
@@ -569,7 +569,7 @@ static int TcpM_Cleanup(TcpM *m)
     SafeFree(m->ServiceName);
     SafeFree(m->ProxyName);
 
-    m->WorkThread = NULL_THREAD;
+    ATOMIC_SET(m->Working, 0);
 
     return 0;
 }
@@ -598,7 +598,7 @@ TcpM_Works(TcpM *m)
     Header = (IHeader *)ReceiveBuffer;
     Entity = ReceiveBuffer + sizeof(IHeader);
 
-    while( m->IsServer )
+    while( ATOMIC_GET(m->IsServer) )
     {
         SOCKET  s;
         struct timeval TimeOut = TimeOut_Const;
@@ -778,6 +778,7 @@ TcpM_Works(TcpM *m)
 
 int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksProxies)
 {
+    ThreadHandle Thread;
     int ret;
 
     if( m == NULL || Services == NULL )
@@ -928,9 +929,10 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
     m->ProxyName = StringDup(SocksProxies);
     m->Parallel = Parallel;
     m->IsServer = 1;
+    m->Working = 1;
 
-    CREATE_THREAD(TcpM_Works, m, m->WorkThread);
-    DETACH_THREAD(m->WorkThread);
+    CREATE_THREAD(TcpM_Works, m, Thread);
+    DETACH_THREAD(Thread);
 
     return 0;
 
diff --git a/tcpm.h b/tcpm.h
index 82b35ba..17039a7 100755
--- a/tcpm.h
+++ b/tcpm.h
@@ -15,9 +15,9 @@ struct _TcpM {
 
     ModuleContext   Context;
 
-    ThreadHandle    WorkThread;
-
-    int IsServer;
+    /* Shared by threads: ATOMIC_GET, ATOMIC_SET */
+    int     Working;
+    int     IsServer;
 
     char            *ServiceName;
     AddressList     ServiceList;
diff --git a/udpm.c b/udpm.c
index de0e984..e856e54 100755
--- a/udpm.c
+++ b/udpm.c
@@ -37,7 +37,7 @@ WINAPI
 #endif
 UdpM_Sweep_Thread(UdpM *m)
 {
-    while( m->IsServer || m->WorkThread != NULL_THREAD)
+    while( ATOMIC_GET(m->IsServer) || ATOMIC_GET(m->Working) )
     {
         SweepTask(m, (SweepCallback)SweepWorks);
         SLEEP(10000);
@@ -46,14 +46,14 @@ UdpM_Sweep_Thread(UdpM *m)
     ModuleContext_Free(&(m->Context));
     EFFECTIVE_LOCK_DESTROY(m->Lock);
 
-    m->SweepThread = NULL_THREAD;
+    ATOMIC_SET(m->Sweeping, 0);
 
     return 0;
 }
 
 static int UdpM_Cleanup(UdpM *m)
 {
-    m->IsServer = 0;
+    ATOMIC_SET(m->IsServer, 0);
 
     CLOSE_SOCKET(m->Departure);
     m->Departure = INVALID_SOCKET;
@@ -62,7 +62,7 @@ static int UdpM_Cleanup(UdpM *m)
     AddressList_Free(&(m->AddrList));
     SafeFree(m->ServiceName);
 
-    m->WorkThread = NULL_THREAD;
+    ATOMIC_SET(m->Working, 0);
 
     return 0;
 }
@@ -94,7 +94,7 @@ UdpM_Works(UdpM *m)
     Header = (IHeader *)ReceiveBuffer;
     Entity = ReceiveBuffer + sizeof(IHeader);
 
-    while( m->IsServer )
+    while( ATOMIC_GET(m->IsServer) )
     {
         int RecvState;
         int ContextState;
@@ -337,6 +337,7 @@ int UdpM_Init(UdpM *m, const char *Services, BOOL Parallel)
     StringList  Addresses;
     StringListIterator  sli;
     const char *Itr;
+    ThreadHandle Thread;
     int ret;
 
     if( m == NULL || Services == NULL )
@@ -413,15 +414,17 @@ int UdpM_Init(UdpM *m, const char *Services, BOOL Parallel)
         goto EXIT_4;
     }
     m->IsServer = 1;
+    m->Working = 1;
+    m->Sweeping = 1;
 
     EFFECTIVE_LOCK_INIT(m->Lock);
 
     m->Send = UdpM_Send;
 
-    CREATE_THREAD(UdpM_Works, m, m->WorkThread);
-    DETACH_THREAD(m->WorkThread);
-    CREATE_THREAD(UdpM_Sweep_Thread, m, m->SweepThread);
-    DETACH_THREAD(m->SweepThread);
+    CREATE_THREAD(UdpM_Works, m, Thread);
+    DETACH_THREAD(Thread);
+    CREATE_THREAD(UdpM_Sweep_Thread, m, Thread);
+    DETACH_THREAD(Thread);
 
     return 0;
 
diff --git a/udpm.h b/udpm.h
index 2c673da..3dbfd53 100755
--- a/udpm.h
+++ b/udpm.h
@@ -15,10 +15,10 @@ struct _UdpM {
 
     EFFECTIVE_LOCK  Lock;
 
-    ThreadHandle    WorkThread;
-    ThreadHandle    SweepThread;
-
-    int IsServer;
+    /* Shared by threads: ATOMIC_GET, ATOMIC_SET */
+    int     Working;
+    int     Sweeping;
+    int     IsServer;
 
     char            *ServiceName;
     AddressList     AddrList;
-- 
2.43.0


From 58e9c76e1265826550c173ec41f159348a6e8521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:31 +0000
Subject: [PATCH 20/60] fix: do not close or replace the socket of a UDP group
 while it is being sent with

The socket is created again after time-outs, and the address list advances,
on other threads than the sending one: a query could go out through a
descriptor that belonged to something else by then.
---
 udpm.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/udpm.c b/udpm.c
index e856e54..822b6a7 100755
--- a/udpm.c
+++ b/udpm.c
@@ -14,7 +14,7 @@ static void SweepWorks(MsgContext *MsgCtx, int Number, UdpM *Module)
 
     ShowTimeOutMessage(h, 'U');
     DomainStatistic_Add(h, STATISTIC_TYPE_REFUSED);
-    ++(Module->CountOfTimeout);
+    ATOMIC_SET(Module->CountOfTimeout, ATOMIC_GET(Module->CountOfTimeout) + 1);
 
     if( Number == 1 )
     {
@@ -51,16 +51,26 @@ UdpM_Sweep_Thread(UdpM *m)
     return 0;
 }
 
+/* Not while it is being sent with */
+static void UdpM_CloseDeparture(UdpM *m)
+{
+    EFFECTIVE_LOCK_GET(m->Lock);
+    CLOSE_SOCKET(m->Departure);
+    m->Departure = INVALID_SOCKET;
+    EFFECTIVE_LOCK_RELEASE(m->Lock);
+}
+
 static int UdpM_Cleanup(UdpM *m)
 {
     ATOMIC_SET(m->IsServer, 0);
 
-    CLOSE_SOCKET(m->Departure);
-    m->Departure = INVALID_SOCKET;
+    UdpM_CloseDeparture(m);
 
+    EFFECTIVE_LOCK_GET(m->Lock);
     SafeFree(m->Parallels.addrs);
     AddressList_Free(&(m->AddrList));
     SafeFree(m->ServiceName);
+    EFFECTIVE_LOCK_RELEASE(m->Lock);
 
     ATOMIC_SET(m->Working, 0);
 
@@ -134,7 +144,7 @@ UdpM_Works(UdpM *m)
             }
 #endif
 
-            m->CountOfTimeout = 0;
+            ATOMIC_SET(m->CountOfTimeout, 0);
 
             EFFECTIVE_LOCK_RELEASE(m->Lock);
 
@@ -149,18 +159,16 @@ UdpM_Works(UdpM *m)
             case SOCKET_ERROR:
                 WARNING("SOCKET_ERROR reached, 98.\n");
                 FD_CLR(m->Departure, &ReadSet);
-                CLOSE_SOCKET(m->Departure);
-                m->Departure = INVALID_SOCKET;
+                UdpM_CloseDeparture(m);
                 continue;
                 break;
 
             case 0:
                 #define RECREATION_THRESHOLD    8
-                if( m->CountOfTimeout > RECREATION_THRESHOLD )
+                if( ATOMIC_GET(m->CountOfTimeout) > RECREATION_THRESHOLD )
                 {
                     FD_CLR(m->Departure, &ReadSet);
-                    CLOSE_SOCKET(m->Departure);
-                    m->Departure = INVALID_SOCKET;
+                    UdpM_CloseDeparture(m);
 
                     WARNING("UDP socket is about to be recreated.\n");
                 }
@@ -187,7 +195,7 @@ UdpM_Works(UdpM *m)
             continue;
         }
 
-        m->CountOfTimeout = 0;
+        ATOMIC_SET(m->CountOfTimeout, 0);
 
         /* Fill IHeader */
         if( IHeader_Fill(Header,
@@ -275,7 +283,6 @@ static int UdpM_Send(UdpM *m,
         EFFECTIVE_LOCK_RELEASE(m->Lock);
         return -242;
     }
-    EFFECTIVE_LOCK_RELEASE(m->Lock);
 
     if( m->Departure != INVALID_SOCKET )
     {
@@ -309,6 +316,7 @@ static int UdpM_Send(UdpM *m,
             a = AddressList_GetOne(&(m->AddrList), &family);
             if( a == NULL )
             {
+                EFFECTIVE_LOCK_RELEASE(m->Lock);
                 ERRORMSG("Fatal error 205.\n");
                 return -277;
             }
@@ -328,7 +336,7 @@ static int UdpM_Send(UdpM *m,
         }
     }
 
-    /*EFFECTIVE_LOCK_RELEASE(m->Lock);*/
+    EFFECTIVE_LOCK_RELEASE(m->Lock);
     return !ret;
 }
 
-- 
2.43.0


From 682b20c3f697c331e8018cd4d0d96d59e2ca88b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:32 +0000
Subject: [PATCH 21/60] fix: do not share the broken-down time between threads
 writing the log

---
 utils.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/utils.c b/utils.c
index a549682..07336c2 100755
--- a/utils.c
+++ b/utils.c
@@ -158,13 +158,20 @@ char *GetCurDateAndTime(char *Buffer, int BufferLength)
 {
     time_t              rawtime;
     struct tm           *timeinfo;
+#ifndef _WIN32
+    struct tm           result;
+#endif
 
     *Buffer = '\0';
     *(Buffer + BufferLength - 1) = '\0';
 
     time(&rawtime);
 
-    timeinfo = localtime(&rawtime);
+#ifdef _WIN32
+    timeinfo = localtime(&rawtime); /* One per thread */
+#else
+    timeinfo = localtime_r(&rawtime, &result);
+#endif
 
     strftime(Buffer, BufferLength - 1 ,"%Y/%m/%d %X", timeinfo);
 
-- 
2.43.0


From f544c06fd95827df5598e8084cdc2d9542cdc809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:32 +0000
Subject: [PATCH 22/60] fix: sweep the cache with its lock held from the
 beginning

The sweep walked the nodes before it took the lock, while they were being
added by other threads.
---
 dnscache.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index 1afb58d..bd29e67 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -58,25 +58,26 @@ struct _Header{
 
 static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
 {
-    BOOL        GotMutex = FALSE;
+    BOOL        Removed = FALSE;
 
     const Array *ChunkList = &(CacheInfo->NodeChunk);
-    int         loop = ChunkList->Used - 1;
-    Cht_Node    *Node = (Cht_Node *)Array_GetBySubscript(ChunkList, loop);
+    int         loop;
+    Cht_Node    *Node;
 
     time_t      CurrentTime = time(NULL);
 
+    RWLock_WrLock(CacheLock);
+
+    loop = ChunkList->Used - 1;
+    Node = (Cht_Node *)Array_GetBySubscript(ChunkList, loop);
+
     while( Node != NULL )
     {
         if( Node->TTL > 0 )
         {
             if( CurrentTime - Node->TimeAdded >= Node->TTL )
             {
-                if(GotMutex == FALSE)
-                {
-                    RWLock_WrLock(CacheLock);
-                    GotMutex = TRUE;
-                }
+                Removed = TRUE;
 
                 Node->TTL = 0;
 
@@ -92,7 +93,7 @@ static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
         Node = (Cht_Node *)Array_GetBySubscript(ChunkList, --loop);
     }
 
-    if(GotMutex == TRUE)
+    if(Removed == TRUE)
     {
         if( ChunkList->Used == 0 )
         {
@@ -101,9 +102,9 @@ static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
             Node = (Cht_Node *)Array_GetBySubscript(ChunkList, ChunkList->Used - 1);
             (*CacheEnd) = Node->Offset + Node->Length;
         }
-
-        RWLock_UnWLock(CacheLock);
     }
+
+    RWLock_UnWLock(CacheLock);
 }
 
 static BOOL IsReloadable(void)
-- 
2.43.0


From bf8941e4b94a6e04771d88e314a920b697cfe71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:06 +0000
Subject: [PATCH 23/60] fix: read the first address of a good IP list with its
 order locked

The address was copied into an answer while the timed check was exchanging
it, so that an answer could be a mixture of two addresses.
---
 goodiplist.c | 16 ++++++++++++----
 goodiplist.h |  3 ++-
 hostsutils.c |  7 +++----
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/goodiplist.c b/goodiplist.c
index 1115028..650e828 100755
--- a/goodiplist.c
+++ b/goodiplist.c
@@ -14,6 +14,7 @@ typedef struct _ListInfo{
 } ListInfo;
 
 static StringChunk  *GoodIpList = NULL;
+static EFFECTIVE_LOCK   GoodIpLock; /* Of the orders of the lists */
 
 /* The fastest returned */
 static struct sockaddr_in *CheckAList(struct sockaddr_in *Ips, int Count)
@@ -108,9 +109,11 @@ static int ThreadJod(const char *Domain, ListInfo *inf)
             return -178;
         }
 
+        EFFECTIVE_LOCK_GET(GoodIpLock);
         memcpy(&t, Fastest, sizeof(struct sockaddr_in));
         memcpy(Fastest, First, sizeof(struct sockaddr_in));
         memcpy(First, &t, sizeof(struct sockaddr_in));
+        EFFECTIVE_LOCK_RELEASE(GoodIpLock);
     } else {
         INFO("Checking list `%s' timeout.\n", Domain);
     }
@@ -255,6 +258,7 @@ static void GoodIpList_Cleanup(void)
     {
         StringChunk_Free(GoodIpList, TRUE);
         SafeFree(GoodIpList);
+        EFFECTIVE_LOCK_DESTROY(GoodIpLock);
     }
 }
 
@@ -264,6 +268,7 @@ int GoodIpList_Init(ConfigFileInfo *ConfigInfo)
     {
         return -1;
     }
+    EFFECTIVE_LOCK_INIT(GoodIpLock);
     atexit(GoodIpList_Cleanup);
 
     if( AddToLists(ConfigInfo) != 0 )
@@ -276,7 +281,7 @@ int GoodIpList_Init(ConfigFileInfo *ConfigInfo)
     return 0;
 }
 
-const char *GoodIpList_Get(const char *List)
+int GoodIpList_Get(const char *List, struct in_addr *Ip)
 {
     ListInfo   *m;
     if( StringChunk_Match_NoWildCard(GoodIpList,
@@ -290,11 +295,14 @@ const char *GoodIpList_Get(const char *List)
     {
         if( Array_GetUsed(&(m->List)) <= 0 )
         {
-            return NULL;
+            return -1;
         } else {
-            return (const char *)&(((const struct sockaddr_in *)Array_GetBySubscript(&(m->List), 0))->sin_addr);
+            EFFECTIVE_LOCK_GET(GoodIpLock);
+            *Ip = ((const struct sockaddr_in *)Array_GetBySubscript(&(m->List), 0))->sin_addr;
+            EFFECTIVE_LOCK_RELEASE(GoodIpLock);
+            return 0;
         }
     } else {
-        return NULL;
+        return -1;
     }
 }
diff --git a/goodiplist.h b/goodiplist.h
index 9cee84d..9523159 100755
--- a/goodiplist.h
+++ b/goodiplist.h
@@ -5,6 +5,7 @@
 
 int GoodIpList_Init(ConfigFileInfo *ConfigInfo);
 
-const char *GoodIpList_Get(const char *List);
+/* Zero returned and `Ip' filled if there is one */
+int GoodIpList_Get(const char *List, struct in_addr *Ip);
 
 #endif /* GOODIPLIST_H_INCLUDED */
diff --git a/hostsutils.c b/hostsutils.c
index fc43739..33b962e 100755
--- a/hostsutils.c
+++ b/hostsutils.c
@@ -88,10 +88,9 @@ static int HostsUtils_Generate(int              Number,
 
     case HOSTS_TYPE_GOOD_IP_LIST:
         {
-            const char *ActuallData;
+            struct in_addr ActuallData;
 
-            ActuallData = GoodIpList_Get(Data);
-            if( ActuallData == NULL )
+            if( GoodIpList_Get(Data, &ActuallData) != 0 )
             {
                 return -96;
             }
@@ -100,7 +99,7 @@ static int HostsUtils_Generate(int              Number,
                            "a",
                            DNS_TYPE_A,
                            DNS_CLASS_IN,
-                           ActuallData,
+                           (const char *)&ActuallData,
                            4,
                            60
                            )
-- 
2.43.0


From 4af8f239206c0c88665265c87c8f05be56abc97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:23 +0000
Subject: [PATCH 24/60] fix: go on logging when the log file cannot be renamed
 or opened again

Once the threshold was reached with the log file taken away, the closed
file was written to and closed again and again.
---
 logs.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/logs.c b/logs.c
index 11af225..4968da1 100755
--- a/logs.c
+++ b/logs.c
@@ -10,6 +10,7 @@
 static BOOL PrintConsole = FALSE;
 static BOOL DebugOn = FALSE;
 
+static BOOL LogOn = FALSE;
 static FILE *LogFile = NULL;
 
 static int  ThresholdLength = 0;
@@ -67,6 +68,7 @@ int Log_Init(ConfigFileInfo *ConfigInfo, BOOL PrintScreen, BOOL Debug)
         fseek(LogFile, 0, SEEK_END);
         CurrentLength = ftell(LogFile);
     }
+    LogOn = TRUE;
     atexit(Log_Cleanup);
 
     ThresholdLength = ConfigGetInt32(ConfigInfo, "LogFileThresholdLength");
@@ -80,7 +82,7 @@ int Log_Init(ConfigFileInfo *ConfigInfo, BOOL PrintScreen, BOOL Debug)
 
 BOOL Log_Inited(void)
 {
-    return LogFile != NULL || PrintConsole;
+    return LogOn || PrintConsole;
 }
 
 BOOL Log_DebugOn(void)
@@ -95,6 +97,7 @@ static void CheckLength(void)
         char FileRenamed[MAX_PATH_BUFFER + 8];
 
         fclose(LogFile);
+        LogFile = NULL;
 
         while( TRUE )
         {
@@ -117,12 +120,8 @@ static void CheckLength(void)
             if( FileIsReadable(FileRenamed) == FALSE )
             {
                 /* If path to `FileRenamed' does not exist */
-                if( rename(FilePath, FileRenamed) != 0 )
-                {
-                    return;
-                }
-
-                LogFile = fopen(FilePath, "w");
+                /* The current one may have been taken away, go on with a new one then */
+                LogFile = fopen(FilePath, rename(FilePath, FileRenamed) == 0 ? "w" : "a");
                 if( LogFile == NULL )
                 {
                     return;
@@ -154,7 +153,10 @@ void Log_Print(const char *Type, const char *format, ...)
     if( LogFile != NULL )
     {
         CheckLength();
+    }
 
+    if( LogFile != NULL )
+    {
         CurrentLength += fprintf(LogFile,
                                  Type == NULL ? "%s " : "%s [%s] ",
                                  DateAndTime,
-- 
2.43.0


From c95d838c311950d6ab8f2d44e358aec287e56b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:24 +0000
Subject: [PATCH 25/60] fix: do not give up a UDP group when its socket cannot
 be created for the moment

The group ended for good, and the next query for it used its freed memory.
---
 udpm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/udpm.c b/udpm.c
index 822b6a7..5efc113 100755
--- a/udpm.c
+++ b/udpm.c
@@ -132,9 +132,10 @@ UdpM_Works(UdpM *m)
 
             if( m->Departure == INVALID_SOCKET )
             {
-                ERRORMSG("Fatal error 68.\n");
                 EFFECTIVE_LOCK_RELEASE(m->Lock);
-                break;
+                ERRORMSG("Fatal error 68. Trying again ...\n");
+                SLEEP(1000);
+                continue;
             }
 
 #if defined(_WIN32) && defined(IPV6_V6ONLY)
-- 
2.43.0


From e81e93aa4d88397c7d7d9db40e7a4d33a2d56f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:25 +0000
Subject: [PATCH 26/60] fix: do not send queries over kept TCP connections
 which the server has closed

The query was lost when the server had reset the connection, or when it no
longer took new ones while others of the group did. Nor can a connection be
used on which something unexpected is waiting: the answer would never be read.
---
 tcpm.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tcpm.c b/tcpm.c
index c033424..e97f07d 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -83,7 +83,7 @@ static SOCKET TcpM_Connect_GetAvailable(SocketPuller *p, TcpContext **TcpCtx)
 {
     SOCKET s = INVALID_SOCKET;
     int Err;
-
+    char Peeked;
 
     while( TRUE )
     {
@@ -103,6 +103,12 @@ static SOCKET TcpM_Connect_GetAvailable(SocketPuller *p, TcpContext **TcpCtx)
             if( time(NULL) - (*TcpCtx)->LastActivity > TCPM_Keep_Alive ) {
                 INFO("Existing TCP connection expired, discard.\n");
                 CLOSE_SOCKET(s);
+            } else if( recv(s, &Peeked, 1, MSG_PEEK) >= 0 ||
+                       FatalErrorDecideding(GET_LAST_ERROR()) != 0
+                       ) {
+                /* Closed by the server, or there is something unexpected */
+                INFO("Existing TCP connection is closed or out of step, discard.\n");
+                CLOSE_SOCKET(s);
             } else {
                 break;
             }
-- 
2.43.0


From 7d172d7ff5f2fcdd69fff15cbed22f069603c174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:04 +0000
Subject: [PATCH 27/60] fix: fetch ready sockets in turn

A socket that was always ready could keep others from being looked at for
ever: replies of TCP servers were not read while queries kept arriving
faster than they could be sent, clients waited for a busy one.
---
 socketpool.c | 38 +++++++++++++++++++++++++++++---------
 socketpool.h |  1 +
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/socketpool.c b/socketpool.c
index 4fe7e49..ab1bf9e 100755
--- a/socketpool.c
+++ b/socketpool.c
@@ -46,9 +46,10 @@ static int SocketPool_Del(SocketPool *sp, SOCKET Sock)
 
 typedef struct _SocketPool_Fetch_Arg
 {
-    SOCKET Sock;
+    SOCKET Last;
     fd_set *fs;
-    void **DataOut;
+    SOCKET *First;  /* The first one of all */
+    SOCKET *Next;   /* The first one after `Last' */
 } SocketPool_Fetch_Arg;
 
 static int SocketPool_Fetch_Inner(Bst *t,
@@ -59,32 +60,50 @@ static int SocketPool_Fetch_Inner(Bst *t,
 
     if( FD_ISSET(*s, Arg->fs) )
     {
-        Arg->Sock = *s;
-
-        if( Arg->DataOut != NULL )
+        if( Arg->First == NULL || *s < *(Arg->First) )
         {
-            *(Arg->DataOut) = (void *)(s + 1);
+            Arg->First = s;
         }
 
-        return 1;
+        if( Arg->Last != INVALID_SOCKET && *s > Arg->Last &&
+            (Arg->Next == NULL || *s < *(Arg->Next))
+            )
+        {
+            Arg->Next = s;
+        }
     }
 
     return 0;
 }
 
+/* In turn, so that none of them has to wait for ever while others are always ready */
 static SOCKET SocketPool_FetchOnSet(SocketPool *sp,
                                     fd_set *fs,
                                     void **Data
                                     )
 {
-    SocketPool_Fetch_Arg ret = {INVALID_SOCKET, fs, Data};
+    SocketPool_Fetch_Arg ret = {sp->LastFetched, fs, NULL, NULL};
+    SOCKET *s;
 
     sp->t.Enum(&(sp->t),
                (Bst_Enum_Callback)SocketPool_Fetch_Inner,
                &ret
                );
 
-    return ret.Sock;
+    s = ret.Next != NULL ? ret.Next : ret.First;
+    if( s == NULL )
+    {
+        return INVALID_SOCKET;
+    }
+
+    if( Data != NULL )
+    {
+        *Data = (void *)(s + 1);
+    }
+
+    sp->LastFetched = *s;
+
+    return *s;
 }
 
 static int SocketPool_CloseAll_Inner(Bst *t,
@@ -147,6 +166,7 @@ int SocketPool_Init(SocketPool *sp, int DataLength)
     }
 
     sp->DataLength = DataLength;
+    sp->LastFetched = INVALID_SOCKET;
 
     sp->Add = SocketPool_Add;
     sp->Del = SocketPool_Del;
diff --git a/socketpool.h b/socketpool.h
index 418d58b..a910a0d 100755
--- a/socketpool.h
+++ b/socketpool.h
@@ -15,6 +15,7 @@ struct _SocketPool{
     Bst t;
     SocketUnit *SocketUnit; /* cache: {SOCKET, Data} */
     int DataLength;
+    SOCKET LastFetched;
 
     /* public */
     int (*Add)(SocketPool *sp,
-- 
2.43.0


From 2ca3c0adc2658fb842590631a4e43e6be1699ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:24 +0000
Subject: [PATCH 28/60] fix: free the pullers of a TCP group with it

---
 socketpuller.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/socketpuller.c b/socketpuller.c
index ce0c9b4..f067a06 100755
--- a/socketpuller.c
+++ b/socketpuller.c
@@ -158,8 +158,11 @@ SocketPuller **SocketPullers_Init(int Count, int DataLength)
     return Pullers;
 
 EXIT_1:
+    if( i == 0 )
+    {
+        SafeFree(Buffer);
+    }
     SocketPullers_FreeWithoutClose(Pullers);
-    SafeFree(Buffer);
     return NULL;
 }
 
@@ -174,23 +177,29 @@ void SocketPullers_CloseAll(SocketPuller **Pullers)
 void SocketPullers_FreeWithoutClose(SocketPuller **Pullers)
 {
     SocketPuller **p;
+    SocketPuller *Buffer;
 
     p = Pullers;
+    Buffer = *Pullers; /* Contiguous */
     for( ; *Pullers != NULL; ++Pullers )
     {
         (*Pullers)->FreeWithoutClose(*Pullers);
     }
+    SafeFree(Buffer);
     SafeFree(p);
 }
 
 void SocketPullers_Free(SocketPuller **Pullers)
 {
     SocketPuller **p;
+    SocketPuller *Buffer;
 
     p = Pullers;
+    Buffer = *Pullers; /* Contiguous */
     for( ; *Pullers != NULL; ++Pullers )
     {
         (*Pullers)->Free(*Pullers);
     }
+    SafeFree(Buffer);
     SafeFree(p);
 }
-- 
2.43.0


From 6513660c2006c9f211bf3978e051b301aab9c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:56 +0000
Subject: [PATCH 29/60] fix: do not keep TCP connections whose server never
 answers

A connection over which a query had been sent stayed in the puller until
the server answered or closed it, so that a silent server used up all of
the descriptors of the service, one for each query. The same applied to
the ones which were never established.
---
 tcpm.c | 56 ++++++++++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 56 insertions(+)

diff --git a/tcpm.c b/tcpm.c
index e97f07d..c25ca96 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -46,6 +46,50 @@ static void SweepWorks(MsgContext *MsgCtx, int Number, TcpM *Module)
     }
 }
 
+typedef struct _TcpM_Stale_Arg
+{
+    time_t  Now;
+    SOCKET  s;
+} TcpM_Stale_Arg;
+
+static int TcpM_Stale_Inner(Bst *t, const SocketUnit *su, TcpM_Stale_Arg *Arg)
+{
+    const SOCKET *s = (const SOCKET *)su;
+    TcpContext TcpCtx;
+
+    memcpy(&TcpCtx, s + 1, sizeof(TcpContext));
+
+    /* The incoming one has no context */
+    if( TcpCtx.LastActivity != 0 &&
+        Arg->Now - TcpCtx.LastActivity > TIMEOUT &&
+        Arg->Now - TcpCtx.LastActivity > TCPM_Keep_Alive
+        )
+    {
+        Arg->s = *s;
+    }
+
+    return 0;
+}
+
+/* Close those never established or never answered */
+static void TcpM_CloseStale(SocketPuller *p)
+{
+    TcpM_Stale_Arg Arg;
+
+    Arg.Now = time(NULL);
+
+    do
+    {
+        Arg.s = INVALID_SOCKET;
+        p->p.t.Enum(&(p->p.t), (Bst_Enum_Callback)TcpM_Stale_Inner, &Arg);
+        if( Arg.s != INVALID_SOCKET )
+        {
+            p->Del(p, Arg.s);
+            CLOSE_SOCKET(Arg.s);
+        }
+    } while( Arg.s != INVALID_SOCKET );
+}
+
 static void TcpM_Connect_Recycle(SocketPuller *Puller, SocketPuller **Backups)
 {
     SocketPuller *p;
@@ -599,6 +643,7 @@ TcpM_Works(TcpM *m)
     TcpContext *TcpCtx;
 
     int NumberOfCumulated = 0;
+    time_t LastChecked = time(NULL);
 
     MsgCtx = (MsgContext *)ReceiveBuffer;
     Header = (IHeader *)ReceiveBuffer;
@@ -609,6 +654,17 @@ TcpM_Works(TcpM *m)
         SOCKET  s;
         struct timeval TimeOut = TimeOut_Const;
 
+        if( time(NULL) != LastChecked )
+        {
+            LastChecked = time(NULL);
+            TcpM_CloseStale(p);
+            TcpM_CloseStale(&(m->QueryPuller));
+            if( m->SocksProxies != NULL )
+            {
+                TcpM_CloseStale(&(m->ProxyPuller));
+            }
+        }
+
         s = p->Select(p, &TimeOut, (void **)&TcpCtx, TRUE, FALSE, &Err);
 
         if( s == INVALID_SOCKET )
-- 
2.43.0


From bf8ab903459c333018f3762185fae65b83cd7db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:28 +0000
Subject: [PATCH 30/60] fix: do not close the incoming socket of a TCP group
 twice

The descriptor may already belong to another thread the second time.
---
 tcpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpm.c b/tcpm.c
index c25ca96..afb51ce 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -596,7 +596,7 @@ static int TcpM_Cleanup(TcpM *m)
 {
     ATOMIC_SET(m->IsServer, 0);
 
-    CLOSE_SOCKET(m->Incoming);
+    /* `Incoming' is closed with the others */
     m->Incoming = INVALID_SOCKET;
     m->Puller.Free(&(m->Puller));
 
-- 
2.43.0


From 27ca40f8fdd78924d019b80f4485c7c6163c4790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:43 +0000
Subject: [PATCH 31/60] fix: do not use descriptors which cannot be selected

With many TCP clients connected, the descriptors of upstream sockets
exceed FD_SETSIZE, and FD_SET wrote out of the set.
---
 goodiplist.c   |  6 +++++-
 socketpuller.c |  8 ++++++++
 tcpfrontend.c  |  8 --------
 tcpm.c         | 19 ++++++++++++++++---
 udpm.c         |  9 +++++++++
 5 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/goodiplist.c b/goodiplist.c
index 650e828..bf792b4 100755
--- a/goodiplist.c
+++ b/goodiplist.c
@@ -44,6 +44,7 @@ static struct sockaddr_in *CheckAList(struct sockaddr_in *Ips, int Count)
 
         if( SetSocketNonBlock(skt, TRUE) != 0 )
         {
+            CLOSE_SOCKET(skt);
             continue;
         }
 
@@ -57,7 +58,10 @@ static struct sockaddr_in *CheckAList(struct sockaddr_in *Ips, int Count)
             continue;
         }
 
-        p.Add(&p, skt, &a, sizeof(struct sockaddr *));
+        if( p.Add(&p, skt, &a, sizeof(struct sockaddr *)) != 0 )
+        {
+            CLOSE_SOCKET(skt);
+        }
     }
 
     if( p.Select(&p, &Time, (void **)&Fastest, FALSE, TRUE, NULL) == INVALID_SOCKET )
diff --git a/socketpuller.c b/socketpuller.c
index f067a06..dc1713c 100755
--- a/socketpuller.c
+++ b/socketpuller.c
@@ -11,6 +11,14 @@ PUBFUNC int SocketPuller_Add(SocketPuller *p,
         return -11;
     }
 
+#ifndef WIN32
+    if( s >= FD_SETSIZE )
+    {
+        /* Not selectable */
+        return -14;
+    }
+#endif
+
     if( p->p.Add(&(p->p), s, Data, DataLength) != 0 )
     {
         return -16;
diff --git a/tcpfrontend.c b/tcpfrontend.c
index 8bed302..f6d8f95 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -71,14 +71,6 @@ static void TcpFrontend_Accept(SOCKET sock, sa_family_t Family)
         return;
     }
 
-#ifndef WIN32
-    if( sock_c >= FD_SETSIZE )
-    {
-        CLOSE_SOCKET(sock_c);
-        return;
-    }
-#endif
-
     Client.Address.family = Family;
     Client.Context = SafeMalloc(SOCKET_CONTEXT_LENGTH);
     if( Client.Context == NULL ||
diff --git a/tcpm.c b/tcpm.c
index afb51ce..721c7d7 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -255,7 +255,11 @@ static int TcpM_Connect(TcpM *m, int ServerIndex, BOOL IsProxy)
         if( s != INVALID_SOCKET )
         {
             DEBUG("Got existing connection from Pullers[%d].\n", idx);
-            Puller->Add(Puller, s, TcpCtx, sizeof(TcpContext));
+            if( Puller->Add(Puller, s, TcpCtx, sizeof(TcpContext)) != 0 )
+            {
+                CLOSE_SOCKET(s);
+                continue;
+            }
             n++;
             continue;
         }
@@ -287,7 +291,11 @@ static int TcpM_Connect(TcpM *m, int ServerIndex, BOOL IsProxy)
             }
         }
 
-        Puller->Add(Puller, s, TcpCtx, sizeof(TcpContext));
+        if( Puller->Add(Puller, s, TcpCtx, sizeof(TcpContext)) != 0 )
+        {
+            CLOSE_SOCKET(s);
+            continue;
+        }
         n++;
     }
 
@@ -866,7 +874,12 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
         goto EXIT_1;
     }
 
-    m->Puller.Add(&(m->Puller), m->Incoming, NULL, 0);
+    if( m->Puller.Add(&(m->Puller), m->Incoming, NULL, 0) != 0 )
+    {
+        CLOSE_SOCKET(m->Incoming);
+        ret = -358;
+        goto EXIT_1;
+    }
 
     if( AddressList_Init(&(m->ServiceList)) != 0 )
     {
diff --git a/udpm.c b/udpm.c
index 5efc113..5ecf4c0 100755
--- a/udpm.c
+++ b/udpm.c
@@ -130,6 +130,15 @@ UdpM_Works(UdpM *m)
             }
             m->Departure = socket(family, SOCK_DGRAM, IPPROTO_UDP);
 
+#ifndef WIN32
+            if( m->Departure != INVALID_SOCKET && m->Departure >= FD_SETSIZE )
+            {
+                /* Not selectable */
+                CLOSE_SOCKET(m->Departure);
+                m->Departure = INVALID_SOCKET;
+            }
+#endif
+
             if( m->Departure == INVALID_SOCKET )
             {
                 EFFECTIVE_LOCK_RELEASE(m->Lock);
-- 
2.43.0


From 98190b4ee02ed29e6419a79c21bb9fcdefd220b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:02 +0000
Subject: [PATCH 32/60] fix: free everything when a TCP group cannot be
 initialized

---
 tcpm.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index 721c7d7..572ab91 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -871,14 +871,14 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
     if( m->Incoming == INVALID_SOCKET )
     {
         ret = -357;
-        goto EXIT_1;
+        goto EXIT_2;
     }
 
     if( m->Puller.Add(&(m->Puller), m->Incoming, NULL, 0) != 0 )
     {
         CLOSE_SOCKET(m->Incoming);
         ret = -358;
-        goto EXIT_1;
+        goto EXIT_2;
     }
 
     if( AddressList_Init(&(m->ServiceList)) != 0 )
@@ -893,15 +893,16 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
         if( StringList_Init(&l, Services, ", ") != 0 )
         {
             ret = -23;
-            goto EXIT_2;
+            goto EXIT_3;
         }
 
         l.TrimAll(&l, "\t .");
 
         if( StringListIterator_Init(&i, &l) != 0 )
         {
+            l.Free(&l);
             ret = -29;
-            goto EXIT_2;
+            goto EXIT_3;
         }
 
         while( (Itr = i.Next(&i)) != NULL )
@@ -1015,6 +1016,7 @@ EXIT_9:
     m->ProxyPuller.FreeWithoutClose(&(m->ProxyPuller));
 EXIT_8:
     SafeFree(m->SocksProxies);
+    SafeFree(m->SocksProxyFamilies);
 EXIT_7:
     AddressList_Free(&(m->SocksProxyList));
 
@@ -1024,6 +1026,7 @@ EXIT_5:
     m->QueryPuller.FreeWithoutClose(&(m->QueryPuller));
 EXIT_4:
     SafeFree(m->Services);
+    SafeFree(m->ServiceFamilies);
 
 EXIT_3:
     AddressList_Free(&(m->ServiceList));
-- 
2.43.0


From 4bfb1d8af4048254c93b11731edce61faee22a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:59 +0000
Subject: [PATCH 33/60] fix: large answers of alias targets were lost: combine
 them in a buffer for uncompressed names

---
 hostsutils.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/hostsutils.c b/hostsutils.c
index 33b962e..ada7139 100755
--- a/hostsutils.c
+++ b/hostsutils.c
@@ -331,6 +331,9 @@ int HostsUtils_CombineRecursedResponse(MsgContext   *Buffer,
     DnsSimpleParserIterator i;
     DnsGenerator g;
 
+    /* Names are not compressed until all are generated */
+    char Generated[65535];
+
     uint16_t OriginalIdentifier = DNSGetQueryIdentifier(NewEntity);
 
     int CompressedLength;
@@ -351,8 +354,8 @@ int HostsUtils_CombineRecursedResponse(MsgContext   *Buffer,
     }
 
     if( DnsGenerator_Init(&g,
-                          NewEntity,
-                          Bufferlength - sizeof(IHeader),
+                          Generated,
+                          sizeof(Generated),
                           NULL,
                           0,
                           FALSE
@@ -428,11 +431,12 @@ int HostsUtils_CombineRecursedResponse(MsgContext   *Buffer,
     }
 
     CompressedLength = DNSCompress(g.Buffer, g.Length(&g));
-    if( CompressedLength < 0 )
+    if( CompressedLength < 0 || CompressedLength > Bufferlength - (int)sizeof(IHeader) )
     {
         return -343;
     }
 
+    memcpy(NewEntity, Generated, CompressedLength);
     NewHeader->EntityLength = CompressedLength;
 
     return 0;
-- 
2.43.0


From 3d03bc95d5768429e820c1550ae7f854ca41d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:59 +0000
Subject: [PATCH 34/60] fix: a cached record set too large to be generated was
 answered in part

---
 dnscache.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index bd29e67..ddabdc1 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -873,10 +873,9 @@ static int DNSCache_GetRawRecordsFromCache(__in    const char *Name,
                         );
             if( iRet != 0 )
             {
-                if( Ret == 0 )
-                {
-                    INFO("Partial cache used for: %s\n", Name_Type_Class);
-                }
+                /* Not a part of them */
+                INFO("Too many records to use the cache: %s\n", Name_Type_Class);
+                Ret = iRet;
                 break;
             }
             Ret = iRet;
-- 
2.43.0


From 18378113fb67143e9d5a0ba41e92c8bba9736024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:37 +0000
Subject: [PATCH 35/60] fix: rules for "::" and blocks beginning there were
 rejected as invalid addresses

---
 utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.c b/utils.c
index 07336c2..909aaab 100755
--- a/utils.c
+++ b/utils.c
@@ -476,7 +476,7 @@ int IPv6AddressToNum(const char *asc, void *Buffer)
         if( asc[2] == '\0' || isspace(asc[2]) )
         {
             memset(Buffer, 0, 16);
-            return 0;
+            return 16;
         }
 
         while(1)
-- 
2.43.0


From 047e5e062cf5b2014638857a7ae7951bce5f9368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:00 +0000
Subject: [PATCH 36/60] fix: group threads were started before the lists and
 the cache they use were set up

---
 mmgr.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mmgr.c b/mmgr.c
index ed1ac87..ab711b6 100755
--- a/mmgr.c
+++ b/mmgr.c
@@ -753,13 +753,6 @@ int MMgr_Init(ConfigFileInfo *ConfigInfo)
 
     RWLock_Init(ModulesLock);
 
-    ret = Modules_Load(ConfigInfo);
-    if( ret != 0 )
-    {
-        return ret;
-    }
-    atexit(Modules_Cleanup);
-
     if( Filter_Init(ConfigInfo) != 0 )
     {
         return -159;
@@ -775,6 +768,14 @@ int MMgr_Init(ConfigFileInfo *ConfigInfo)
         return -176;
     }
 
+    /* Their threads use the above */
+    ret = Modules_Load(ConfigInfo);
+    if( ret != 0 )
+    {
+        return ret;
+    }
+    atexit(Modules_Cleanup);
+
     /* The last: reloading */
     if( Hosts_Init(ConfigInfo) != 0 )
     {
-- 
2.43.0


From 422acb0ac5317977efa085e46b75e0a7a6edfc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:56 +0000
Subject: [PATCH 37/60] fix: an address that refuses connections was taken for
 the fastest of its list

---
 goodiplist.c | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/goodiplist.c b/goodiplist.c
index bf792b4..b7529ec 100755
--- a/goodiplist.c
+++ b/goodiplist.c
@@ -21,6 +21,7 @@ static struct sockaddr_in *CheckAList(struct sockaddr_in *Ips, int Count)
 {
     SocketPuller    p;
     int i;
+    int Pending = 0;
     struct timeval  Time    =   {5, 0};
     struct sockaddr_in **Fastest = NULL;
 
@@ -61,19 +62,35 @@ static struct sockaddr_in *CheckAList(struct sockaddr_in *Ips, int Count)
         if( p.Add(&p, skt, &a, sizeof(struct sockaddr *)) != 0 )
         {
             CLOSE_SOCKET(skt);
+            continue;
         }
-    }
 
-    if( p.Select(&p, &Time, (void **)&Fastest, FALSE, TRUE, NULL) == INVALID_SOCKET )
-    {
-        ret = NULL;
+        ++Pending;
     }
 
-    if( Fastest == NULL )
+    for( ; Pending > 0; --Pending )
     {
-        ret = NULL;
-    } else {
-        ret = *Fastest;
+        SOCKET  skt;
+        int     Err = 0;
+        socklen_t   ErrLength = sizeof(Err);
+
+        skt = p.Select(&p, &Time, (void **)&Fastest, FALSE, TRUE, NULL);
+        if( skt == INVALID_SOCKET || Fastest == NULL )
+        {
+            break;
+        }
+
+        /* A failed connection is writable, too. */
+        if( getsockopt(skt, SOL_SOCKET, SO_ERROR, (char *)&Err, &ErrLength) == 0 &&
+            Err == 0
+            )
+        {
+            ret = *Fastest;
+            break;
+        }
+
+        p.Del(&p, skt);
+        CLOSE_SOCKET(skt);
     }
 
     p.Free(&p);
-- 
2.43.0


From 46674f443bc56da32324b96447d45dd55625c9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:22 +0000
Subject: [PATCH 38/60] fix: queried names with wildcard characters were not
 counted, and swallowed the counts of other names

---
 domainstatistic.c | 16 ++++++++--------
 stringchunk.c     | 41 +++++++++++++++++++++++++++++++++++------
 stringchunk.h     |  7 +++++++
 3 files changed, 50 insertions(+), 14 deletions(-)

diff --git a/domainstatistic.c b/domainstatistic.c
index 2123587..8ebfacc 100755
--- a/domainstatistic.c
+++ b/domainstatistic.c
@@ -275,13 +275,13 @@ int DomainStatistic_Add(IHeader *h, StatisticType Type)
     if( SkipStatistic == FALSE )
     {
 
-        if( StringChunk_Match(&MainChunk,
-                              h->Domain,
-                              &(h->HashValue),
-                              (void **)&ExistInfo,
-                              NULL,
-                              NULL
-                              )
+        if( StringChunk_Match_NoWildCard(&MainChunk,
+                                         h->Domain,
+                                         &(h->HashValue),
+                                         (void **)&ExistInfo,
+                                         NULL,
+                                         NULL
+                                         )
             == FALSE )
         {
             DomainInfo NewInfo;
@@ -322,7 +322,7 @@ int DomainStatistic_Add(IHeader *h, StatisticType Type)
 
             }
 
-            StringChunk_Add(&MainChunk, h->Domain, (const char *)&NewInfo, sizeof(DomainInfo));
+            StringChunk_Add_NoWildCard(&MainChunk, h->Domain, (const char *)&NewInfo, sizeof(DomainInfo));
         } else {
             if( ExistInfo != NULL )
             {
diff --git a/stringchunk.c b/stringchunk.c
index df8b649..8d07709 100755
--- a/stringchunk.c
+++ b/stringchunk.c
@@ -67,11 +67,12 @@ EXIT_1:
     return ret;
 }
 
-int StringChunk_Add(StringChunk *dl,
-                    const char  *Str,
-                    const void  *AdditionalData,
-                    int         LengthOfAdditionalData /* The length will not be stored. */
-                    )
+static int StringChunk_Add_Inner(StringChunk *dl,
+                                 const char  *Str,
+                                 const void  *AdditionalData,
+                                 int         LengthOfAdditionalData, /* The length will not be stored. */
+                                 BOOL        WildCard
+                                 )
 {
     StableBuffer    *sb;
     StringList      *sl;
@@ -112,7 +113,7 @@ int StringChunk_Add(StringChunk *dl,
         return -2;
     }
 
-    if( HAS_WILDCARD(Str) )
+    if( WildCard )
     {
         if( Array_PushBack(wl, &NewEntry, NULL) < 0 )
         {
@@ -128,6 +129,34 @@ int StringChunk_Add(StringChunk *dl,
     return 0;
 }
 
+int StringChunk_Add(StringChunk *dl,
+                    const char  *Str,
+                    const void  *AdditionalData,
+                    int         LengthOfAdditionalData /* The length will not be stored. */
+                    )
+{
+    return StringChunk_Add_Inner(dl,
+                                 Str,
+                                 AdditionalData,
+                                 LengthOfAdditionalData,
+                                 HAS_WILDCARD(Str) != NULL
+                                 );
+}
+
+int StringChunk_Add_NoWildCard(StringChunk *dl,
+                               const char  *Str,
+                               const void  *AdditionalData,
+                               int         LengthOfAdditionalData /* The length will not be stored. */
+                               )
+{
+    return StringChunk_Add_Inner(dl,
+                                 Str,
+                                 AdditionalData,
+                                 LengthOfAdditionalData,
+                                 FALSE
+                                 );
+}
+
 int StringChunk_Add_Domain(StringChunk  *dl,
                            const char   *Domain,
                            const void   *AdditionalData,
diff --git a/stringchunk.h b/stringchunk.h
index 89265aa..aa55f57 100755
--- a/stringchunk.h
+++ b/stringchunk.h
@@ -30,6 +30,13 @@ int StringChunk_Add(StringChunk *dl,
                     int LengthOfAdditionalData
                     );
 
+/* `Str' is taken literally, even if it contains wildcards */
+int StringChunk_Add_NoWildCard(StringChunk *dl,
+                               const char *Str,
+                               const void *AdditionalData,
+                               int LengthOfAdditionalData
+                               );
+
 int StringChunk_Add_Domain(StringChunk  *dl,
                            const char   *Domain,
                            const void   *AdditionalData,
-- 
2.43.0


From cb6dc05e03dcf1fb3c427b23775ad36c31fe90c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:38 +0000
Subject: [PATCH 39/60] fix: names with quotes, backslashes, angle brackets or
 control characters broke the statistics report

---
 domainstatistic.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/domainstatistic.c b/domainstatistic.c
index 8ebfacc..c59ca08 100755
--- a/domainstatistic.c
+++ b/domainstatistic.c
@@ -84,6 +84,22 @@ EXIT:
     return -1;
 }
 
+/* As the inside of a JavaScript string */
+static void WriteName(const char *Name)
+{
+    for( ; *Name != '\0'; ++Name )
+    {
+        unsigned char c = *Name;
+
+        if( c < 0x20 || c == 0x7F || strchr("\"'\\<>&", c) != NULL )
+        {
+            fprintf(MainFile, "\\x%02X", c);
+        } else {
+            fputc(c, MainFile);
+        }
+    }
+}
+
 static int DomainStatistic_Works(void *Unused, void *Unused2)
 {
     const char *Str;
@@ -134,9 +150,10 @@ static int DomainStatistic_Works(void *Unused, void *Unused2)
             Sum.Tcp += Info->Tcp;
             Sum.BlockedMsg += Info->BlockedMsg;
 
+            fprintf(MainFile, "{Domain:\"");
+            WriteName(Str);
             fprintf(MainFile,
-                    "{"
-                        "Domain:\"%s\","
+                        "\","
                         "Total:%d,"
                         "RaF:%d,"
                         "Hosts:%d,"
@@ -145,7 +162,6 @@ static int DomainStatistic_Works(void *Unused, void *Unused2)
                         "TCP:%d,"
                         "BlockedMsg:%d"
                     "},",
-                    Str,
                     Info->Count,
                     Info->Refused,
                     Info->Hosts,
-- 
2.43.0


From e19ccab34706884aaa05967deb234661935d69e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:21 +0000
Subject: [PATCH 40/60] fix: answers for names redirected by hosts were missing
 in the statistics

---
 hosts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hosts.c b/hosts.c
index b9a5a6b..b3ea303 100755
--- a/hosts.c
+++ b/hosts.c
@@ -317,6 +317,7 @@ Hosts_SocketLoop(void *Unused)
             }
 
             ShowNormalMessage(InnerHeader, 'H');
+            DomainStatistic_Add(InnerHeader, STATISTIC_TYPE_HOSTS);
         }
     }
 
-- 
2.43.0


From b5a1ebfc2c86e03f5c8732c77fdf204313231114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:17 +0000
Subject: [PATCH 41/60] fix: in a line with both, the text after ';' was kept
 because of the '#' behind it

---
 readline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/readline.c b/readline.c
index e3df0e5..6d390b4 100755
--- a/readline.c
+++ b/readline.c
@@ -76,7 +76,7 @@ START:
         ReachedEnd = ReachedLineEnd(fp, Buffer);
     }
 
-    if( (ClearAnnotation(Buffer, '#') || ClearAnnotation(Buffer, ';')) != FALSE )
+    if( (ClearAnnotation(Buffer, '#') | ClearAnnotation(Buffer, ';')) != FALSE )
     {
         if( ReachedEnd == FALSE )
         {
-- 
2.43.0


From 69549a028bc1baf8c9889ef056ca29dfb90ab603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:47 +0000
Subject: [PATCH 42/60] fix: the rest of an overlong line was read as a line of
 its own, or took the line after it along

---
 readconfig.c | 17 ++++++++++++++++-
 readline.c   | 32 +++++++++++++++++++++++++++++---
 readline.h   |  3 +++
 3 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/readconfig.c b/readconfig.c
index e84d56e..76114fa 100755
--- a/readconfig.c
+++ b/readconfig.c
@@ -322,7 +322,7 @@ static void ParseString(ConfigOption *Option,
 
     while( ReadStatus != READ_DONE ){
 
-        ReadStatus = ReadLine(fp, Buffer, BufferLength);
+        ReadStatus = ReadLine_Continue(fp, Buffer, BufferLength);
         if( ReadStatus == READ_FAILED_OR_END )
             break;
 
@@ -358,6 +358,14 @@ static char *TrimPath(char *Path)
     }
 }
 
+static void SkipRest(FILE *fp, ReadLineStatus Status)
+{
+    if( Status == READ_TRUNCATED )
+    {
+        ReadLine_GoToNextLine(fp);
+    }
+}
+
 int ConfigRead(ConfigFileInfo *Info)
 {
     int             NumOfRead   =   0;
@@ -380,7 +388,10 @@ int ConfigRead(ConfigFileInfo *Info)
 
         ValuePos = SplitNameAndValue(Buffer, " \t=");
         if( ValuePos == NULL )
+        {
+            SkipRest(Info->fp, ReadStatus);
             continue;
+        }
 
         KeyName = Buffer;
 
@@ -394,6 +405,7 @@ int ConfigRead(ConfigFileInfo *Info)
 
         if( Option == NULL )
         {
+            SkipRest(Info->fp, ReadStatus);
             continue;
         }
 
@@ -435,15 +447,18 @@ int ConfigRead(ConfigFileInfo *Info)
         {
             case TYPE_INT32:
                 ParseInt32(Option, ValuePos);
+                SkipRest(Info->fp, ReadStatus);
                 break;
 
             case TYPE_BOOLEAN:
                 ParseBoolean(Option, ValuePos);
+                SkipRest(Info->fp, ReadStatus);
                 break;
 
             case TYPE_PATH:
                 if( ReadStatus != READ_DONE )
                 {
+                    SkipRest(Info->fp, ReadStatus);
                     break;
                 }
 
diff --git a/readline.c b/readline.c
index 6d390b4..ffbf5dc 100755
--- a/readline.c
+++ b/readline.c
@@ -64,7 +64,8 @@ static void EliminateFootSpace(char *str)
 
 }
 
-ReadLineStatus ReadLine(FILE *fp, char *Buffer, int BufferSize)
+/* `Continued': `fp' is inside a line, only the rest of that line is read */
+static ReadLineStatus ReadLine_Inner(FILE *fp, char *Buffer, int BufferSize, BOOL Continued)
 {
     BOOL    ReachedEnd;
 
@@ -85,13 +86,18 @@ START:
             {
                 if( fgets(BlackHole, sizeof(BlackHole), fp) == NULL )
                 {
-                    return READ_FAILED_OR_END;
+                    break;
                 }
                 ReachedEnd = ReachedLineEnd(fp, BlackHole);
             }while( ReachedEnd == FALSE );
         }
 
         EliminateFootSpace(Buffer);
+        if( Continued )
+        {
+            return READ_DONE;
+        }
+
         EliminateHeadSpace(Buffer);
 
         if( *Buffer == '\0' )
@@ -107,6 +113,11 @@ START:
     {
         EliminateCRLF(Buffer);
         EliminateFootSpace(Buffer);
+        if( Continued )
+        {
+            return READ_DONE;
+        }
+
         EliminateHeadSpace(Buffer);
         if( *Buffer == '\0' )
         {
@@ -115,10 +126,25 @@ START:
             return READ_DONE;
         }
     } else {
+        if( !Continued )
+        {
+            EliminateHeadSpace(Buffer);
+        }
+
         return READ_TRUNCATED;
     }
 }
 
+ReadLineStatus ReadLine(FILE *fp, char *Buffer, int BufferSize)
+{
+    return ReadLine_Inner(fp, Buffer, BufferSize, FALSE);
+}
+
+ReadLineStatus ReadLine_Continue(FILE *fp, char *Buffer, int BufferSize)
+{
+    return ReadLine_Inner(fp, Buffer, BufferSize, TRUE);
+}
+
 ReadLineStatus ReadLine_GoToNextLine(FILE *fp)
 {
     ReadLineStatus Status;
@@ -126,7 +152,7 @@ ReadLineStatus ReadLine_GoToNextLine(FILE *fp)
 
     do
     {
-        Status = ReadLine(fp, Buffer, sizeof(Buffer));
+        Status = ReadLine_Continue(fp, Buffer, sizeof(Buffer));
     }
     while( Status == READ_TRUNCATED );
 
diff --git a/readline.h b/readline.h
index 261fc89..0f9ec35 100755
--- a/readline.h
+++ b/readline.h
@@ -12,6 +12,9 @@ typedef enum _ReadLineStatus
 
 ReadLineStatus ReadLine(FILE *fp, char *Buffer, int BufferSize);
 
+/* The rest of a line after `READ_TRUNCATED' */
+ReadLineStatus ReadLine_Continue(FILE *fp, char *Buffer, int BufferSize);
+
 ReadLineStatus ReadLine_GoToNextLine(FILE *fp);
 
 #endif /* READLINE_H_INCLUDED */
-- 
2.43.0


From a6f6842c145540203ec53f200648f44e67233789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:47 +0000
Subject: [PATCH 43/60] fix: a group file could not name a list file whose path
 has upper-case letters

---
 mmgr.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mmgr.c b/mmgr.c
index ab711b6..4ba3dd0 100755
--- a/mmgr.c
+++ b/mmgr.c
@@ -370,7 +370,7 @@ static int Modules_InitFromFile(ModuleMap *ModuleMap, StringListIterator *i)
 
     do {
         char Buffer[MAX_PATH_BUFFER];
-        const char *Value;
+        char *Value;
 
         Status = ReadLine(fp, Buffer, sizeof(Buffer));
 
@@ -386,11 +386,17 @@ static int Modules_InitFromFile(ModuleMap *ModuleMap, StringListIterator *i)
             break;
         }
 
+        Value = SplitNameAndValue(Buffer, " \t=");
         StrToLower(Buffer);
 
-        Value = SplitNameAndValue(Buffer, " \t=");
         if( Value != NULL )
         {
+            /* Paths are case-sensitive */
+            if( strcmp(Buffer, "list") != 0 )
+            {
+                StrToLower(Value);
+            }
+
             StringChunk_Add(&Args, Buffer, Value, strlen(Value) + 1);
         } else {
             Domains.Add(&Domains, Buffer, NULL);
-- 
2.43.0


From 18c7e09cf9532df46a9e5e0c52cc451b54cb5349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:54 +0000
Subject: [PATCH 44/60] fix: leaving after a failed start freed memory in the
 middle of the cache

---
 cacheht.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cacheht.c b/cacheht.c
index 2e13a4a..113a724 100755
--- a/cacheht.c
+++ b/cacheht.c
@@ -437,7 +437,10 @@ Cht_Node *CacheHT_Get(CacheHT *h, const char *Key, const Cht_Node *Start, const
 
 void CacheHT_Free(CacheHT *h)
 {
-    Array_Free(&(h->NodeChunk));
-    Array_Free(&(h->Slots));
+    /* Their memory is part of the cache, which its owner frees */
+    h->NodeChunk.Data = NULL;
+    h->NodeChunk.Used = 0;
+    h->Slots.Data = NULL;
+    h->Slots.Used = 0;
     h->Free2DList = -1;
 }
-- 
2.43.0


From 1da4398f46fb7f77fca7a423c8298000db5b934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:05 +0000
Subject: [PATCH 45/60] fix: an unreadable hosts source or a full disk left an
 empty or cut hosts file in force

---
 downloader.c | 10 ++++++++--
 utils.c      | 14 ++++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/downloader.c b/downloader.c
index 15fdc3c..ce14cba 100755
--- a/downloader.c
+++ b/downloader.c
@@ -67,9 +67,15 @@ int GetFromInternet_MultiFiles(const char   **URLs,
         fp = fopen(TempFile, "a+");
         if( fp != NULL )
         {
-            fputc('\n', fp);
-            fclose(fp);
+            int Failed = fputc('\n', fp) == EOF;
+
+            if( fclose(fp) != 0 || Failed )
+            {
+                State = FALSE;
+                break;
+            }
         } else {
+            State = FALSE;
             break;
         }
 
diff --git a/utils.c b/utils.c
index 909aaab..1a61289 100755
--- a/utils.c
+++ b/utils.c
@@ -1025,6 +1025,7 @@ char *GetLocalPathFromURL(const char *URL, char *Buffer, int BufferLength)
 int CopyAFile(const char *Src, const char *Dst, BOOL Append)
 {
     FILE *Src_Fp, *Dst_Fp;
+    int Ret = 0;
 
     Src_Fp = fopen(Src, "r");
     if( Src_Fp == NULL )
@@ -1052,10 +1053,19 @@ int CopyAFile(const char *Src, const char *Dst, BOOL Append)
 
     } while( TRUE );
 
+    /* a part of a file is no copy */
+    if( ferror(Src_Fp) || ferror(Dst_Fp) )
+    {
+        Ret = -3;
+    }
+
     fclose(Src_Fp);
-    fclose(Dst_Fp);
+    if( fclose(Dst_Fp) != 0 )
+    {
+        Ret = -3;
+    }
 
-    return 0;
+    return Ret;
 }
 
 int FatalErrorDecideding(int LastError)
-- 
2.43.0


From 5dfcb3abf9a2980af02d6b663db784b3eed36f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:05 +0000
Subject: [PATCH 46/60] fix: error pages of web servers and cut downloads were
 taken for hosts files

---
 downloader.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/downloader.c b/downloader.c
index ce14cba..e7db377 100755
--- a/downloader.c
+++ b/downloader.c
@@ -196,8 +196,7 @@ static size_t WriteFileCallback(void *Contents,
                                 )
 {
     FILE *fp = (FILE *)FileDes;
-    fwrite(Contents, Size, nmemb, fp);
-    return Size * nmemb;
+    return fwrite(Contents, Size, nmemb, fp) * Size;
 }
 #endif /* DOWNLOAD_LIBCURL */
 
@@ -283,6 +282,7 @@ Exit_1:
 
     curl_easy_setopt(curl, CURLOPT_URL, URL);
     curl_easy_setopt(curl, CURLOPT_FOLLOWLOCATION, 1l);
+    curl_easy_setopt(curl, CURLOPT_FAILONERROR, 1l);
     curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, WriteFileCallback);
     curl_easy_setopt(curl, CURLOPT_WRITEDATA, fp);
 
@@ -297,8 +297,7 @@ Exit_1:
         return -3;
     } else {
         curl_easy_cleanup(curl);
-        fclose(fp);
-        return 0;
+        return fclose(fp) == 0 ? 0 : -4;
     }
 #       endif /* DOWNLOAD_LIBCURL */
 #       ifdef DOWNLOAD_WGET
-- 
2.43.0


From abda2b3cae56c24fe26d4fbbf0560503caef33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:05 +0000
Subject: [PATCH 47/60] fix: the saved hosts were lost when the process ended
 between removing and renaming the file

---
 downloader.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/downloader.c b/downloader.c
index e7db377..540517a 100755
--- a/downloader.c
+++ b/downloader.c
@@ -84,7 +84,10 @@ int GetFromInternet_MultiFiles(const char   **URLs,
 
     if( State && TRUE )
     {
+#ifdef _WIN32
         remove(File);
+#endif /* _WIN32 */
+        /* replaces the old file at once */
         rename(TempFile, File);
     }
 
-- 
2.43.0


From 2b833a9961c4c4e76cd7a9b768e4d5cbeaaa7ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:33 +0000
Subject: [PATCH 48/60] fix: TCP was not served after a restart as long as
 connections of the earlier run were closing

---
 tcpfrontend.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/tcpfrontend.c b/tcpfrontend.c
index f6d8f95..c6f20d4 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -282,6 +282,15 @@ int TcpFrontend_Init(ConfigFileInfo *ConfigInfo, BOOL StartWork)
             continue;
         }
 
+#ifndef _WIN32
+        {
+            /* closed connections of an earlier run must not prevent binding */
+            int Reuse = 1;
+
+            setsockopt(sock, SOL_SOCKET, SO_REUSEADDR, (const char *)&Reuse, sizeof(Reuse));
+        }
+#endif /* _WIN32 */
+
         if( bind(sock,
                  (const struct sockaddr *)&(a.Addr),
                  GetAddressLength(f)
@@ -301,7 +310,8 @@ int TcpFrontend_Init(ConfigFileInfo *ConfigInfo, BOOL StartWork)
         if( listen(sock, 16) == SOCKET_ERROR )
         {
             ERRORMSG("Can't listen on interface: %s .\n", One);
-            break;
+            CLOSE_SOCKET(sock);
+            continue;
         }
 
         if( f == AF_INET6 )
-- 
2.43.0


From f1decdf33a907e8fea49d2c25797f5806276c17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:48 +0000
Subject: [PATCH 49/60] fix: replies from anyone were taken for replies of a
 UDP group's servers

The source of a reply was not looked at, so anyone who could reach the port could answer for the servers, and with several servers asked at once even what answered no query got into the cache.
---
 addresslist.c | 49 +++++++++++++++++++++++++++++++++++++++++++++++++
 addresslist.h |  7 +++++++
 udpm.c        | 12 ++++++++++--
 3 files changed, 66 insertions(+), 2 deletions(-)

diff --git a/addresslist.c b/addresslist.c
index f19643b..2156fc2 100755
--- a/addresslist.c
+++ b/addresslist.c
@@ -159,6 +159,55 @@ struct sockaddr *AddressList_GetOneBySubscript(AddressList *a, sa_family_t *fami
     }
 }
 
+BOOL AddressList_Contains(AddressList *a, const struct sockaddr *Addr)
+{
+    static const struct in6_addr Any6 = IN6ADDR_ANY_INIT;
+
+    int Itr;
+    int NumberOfAddresses = AddressList_GetNumberOfAddresses(a);
+
+    for( Itr = 0; Itr < NumberOfAddresses; ++Itr )
+    {
+        sa_family_t Family = AF_UNSPEC;
+        const struct sockaddr *One;
+
+        One = AddressList_GetOneBySubscript(a, &Family, Itr);
+        if( One == NULL || Family != Addr->sa_family )
+        {
+            continue;
+        }
+
+        if( Family == AF_INET )
+        {
+            const struct sockaddr_in *l = (const struct sockaddr_in *)One;
+            const struct sockaddr_in *r = (const struct sockaddr_in *)Addr;
+
+            if( l->sin_port == r->sin_port &&
+                (l->sin_addr.s_addr == r->sin_addr.s_addr ||
+                 l->sin_addr.s_addr == htonl(INADDR_ANY)
+                 )
+                )
+            {
+                return TRUE;
+            }
+        } else {
+            const struct sockaddr_in6 *l = (const struct sockaddr_in6 *)One;
+            const struct sockaddr_in6 *r = (const struct sockaddr_in6 *)Addr;
+
+            if( l->sin6_port == r->sin6_port &&
+                (memcmp(&(l->sin6_addr), &(r->sin6_addr), sizeof(Any6)) == 0 ||
+                 memcmp(&(l->sin6_addr), &Any6, sizeof(Any6)) == 0
+                 )
+                )
+            {
+                return TRUE;
+            }
+        }
+    }
+
+    return FALSE;
+}
+
 struct sockaddr *AddressList_GetOne(AddressList *a, sa_family_t *family)
 {
     return AddressList_GetOneBySubscript(a, family, a->Counter % Array_GetUsed(&(a->AddressList)));
diff --git a/addresslist.h b/addresslist.h
index f34c2cf..be0c7f4 100755
--- a/addresslist.h
+++ b/addresslist.h
@@ -78,6 +78,13 @@ struct sockaddr *AddressList_GetOneBySubscript(__in         AddressList *a,
                                                __out_opt    sa_family_t *family,
                                                __in         int         Subscript);
 
+BOOL AddressList_Contains(__in AddressList           *a,
+                          __in const struct sockaddr *Addr);
+/* Description:
+ *  Test if a list has an address, of the same family, IP and port.
+ *  A wildcard IP in the list stands for any IP.
+ */
+
 struct sockaddr *AddressList_GetOne(__in        AddressList *a,
                                     __out_opt   sa_family_t *family);
 /* Description:
diff --git a/udpm.c b/udpm.c
index 5ecf4c0..536e224 100755
--- a/udpm.c
+++ b/udpm.c
@@ -108,6 +108,8 @@ UdpM_Works(UdpM *m)
     {
         int RecvState;
         int ContextState;
+        Address_Type From;
+        socklen_t FromLength = sizeof(From.Addr);
 
         /* Set up socket */
         if( m->Departure == INVALID_SOCKET )
@@ -195,8 +197,8 @@ UdpM_Works(UdpM *m)
                              Entity,
                              LEFT_LENGTH,
                              0,
-                             NULL,
-                             NULL
+                             (struct sockaddr *)&(From.Addr),
+                             &FromLength
                              );
 
         if( RecvState <= 0 )
@@ -205,6 +207,12 @@ UdpM_Works(UdpM *m)
             continue;
         }
 
+        if( !AddressList_Contains(&(m->AddrList), (struct sockaddr *)&(From.Addr)) )
+        {
+            WARNING("A package not from %s, discarded.\n", m->ServiceName);
+            continue;
+        }
+
         ATOMIC_SET(m->CountOfTimeout, 0);
 
         /* Fill IHeader */
-- 
2.43.0


From 45cf57fa96842e810e3afbcb3a5ddaff5a2d01ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:48 +0000
Subject: [PATCH 50/60] fix: the internal sockets took datagrams of other
 programs for the daemon's own

They carry structures with pointers; any local user could end the daemon by sending one.
---
 hosts.c | 24 ++++++++++--------------
 tcpm.c  | 12 +++++-------
 utils.c | 35 +++++++++++++++++++++++++++++++++++
 utils.h |  7 +++++++
 4 files changed, 57 insertions(+), 21 deletions(-)

diff --git a/hosts.c b/hosts.c
index b3ea303..98245f9 100755
--- a/hosts.c
+++ b/hosts.c
@@ -199,13 +199,11 @@ Hosts_SocketLoop(void *Unused)
 
             TimeLimit = ShortTime;
 
-            State = recvfrom(InnerSocket,
-                             InnerBuffer, /* Receiving a header */
-                             sizeof(InnerBuffer),
-                             0,
-                             NULL,
-                             NULL
-                             );
+            State = RecvFromSelf(InnerSocket,
+                                 InnerBuffer, /* Receiving a header */
+                                 sizeof(InnerBuffer),
+                                 &InnerAddress
+                                 );
 
             if( State < (int)(sizeof(IHeader) + sizeof(uint16_t)) )
             {
@@ -268,13 +266,11 @@ Hosts_SocketLoop(void *Unused)
 
             TimeLimit = ShortTime;
 
-            State = recvfrom(OuterSocket,
-                             OuterBuffer, /* Receiving a header */
-                             sizeof(OuterBuffer),
-                             0,
-                             NULL,
-                             NULL
-                             );
+            State = RecvFromSelf(OuterSocket,
+                                 OuterBuffer, /* Receiving a header */
+                                 sizeof(OuterBuffer),
+                                 &OuterAddress
+                                 );
 
             if( State < (int)(sizeof(IHeader) + DNS_HEADER_LENGTH) )
             {
diff --git a/tcpm.c b/tcpm.c
index 572ab91..de1ce1d 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -696,13 +696,11 @@ TcpM_Works(TcpM *m)
                 NumberOfCumulated = 0;
             }
 
-            State = recvfrom(s,
-                             ReceiveBuffer, /* Receiving a header */
-                             SOCKET_CONTEXT_LENGTH,
-                             0,
-                             NULL,
-                             NULL
-                             );
+            State = RecvFromSelf(s,
+                                 ReceiveBuffer, /* Receiving a header */
+                                 SOCKET_CONTEXT_LENGTH,
+                                 &(m->IncomingAddr)
+                                 );
 
             if( State > 0 )
             {
diff --git a/utils.c b/utils.c
index 1a61289..d3c1049 100755
--- a/utils.c
+++ b/utils.c
@@ -1319,6 +1319,41 @@ SOCKET TryBindLocal(BOOL Ipv6, int StartPort, Address_Type *Address)
     return ret;
 }
 
+int RecvFromSelf(SOCKET Sock, char *Buffer, int BufferLength, const Address_Type *Self)
+{
+    Address_Type From;
+    socklen_t FromLength = sizeof(From.Addr);
+    int State;
+
+    State = recvfrom(Sock,
+                     Buffer,
+                     BufferLength,
+                     0,
+                     (struct sockaddr *)&(From.Addr),
+                     &FromLength
+                     );
+
+    if( State <= 0 )
+    {
+        return State;
+    }
+
+    if( Self->family == AF_INET ?
+        From.Addr.Addr4.sin_port != Self->Addr.Addr4.sin_port ||
+        From.Addr.Addr4.sin_addr.s_addr != Self->Addr.Addr4.sin_addr.s_addr :
+        From.Addr.Addr6.sin6_port != Self->Addr.Addr6.sin6_port ||
+        memcmp(&(From.Addr.Addr6.sin6_addr),
+               &(Self->Addr.Addr6.sin6_addr),
+               sizeof(From.Addr.Addr6.sin6_addr)
+               ) != 0
+        )
+    {
+        return -1;
+    }
+
+    return State;
+}
+
 char *SplitNameAndValue(const char *Line, const char *Delimiters)
 {
     char *Delimiter = strpbrk(Line, Delimiters);
diff --git a/utils.h b/utils.h
index 3aca5b2..34956be 100755
--- a/utils.h
+++ b/utils.h
@@ -163,6 +163,13 @@ void ClearTCPSocketBuffer(SOCKET Sock, int Length);
 
 SOCKET TryBindLocal(BOOL Ipv6, int StartPort, Address_Type *Address);
 
+int RecvFromSelf(SOCKET Sock, char *Buffer, int BufferLength, const Address_Type *Self);
+/* Description:
+ *  Receive what was sent by a socket from `TryBindLocal' to itself.
+ * Return value:
+ *  Length received, or <= 0 on errors, including data from anyone else.
+ */
+
 char *SplitNameAndValue(const char *Line, const char *Delimiters);
 
 char *GetPathPart(char *FullPath);
-- 
2.43.0


From d28df02ad9e2d84b6ad7f14e79c74553a3ef3b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:49 +0000
Subject: [PATCH 51/60] fix: in daemon mode the output of the hosts script went
 into the timed tasks' pipe

Descriptors 0, 1 and 2 were closed and taken by the next things opened; what the script wrote was executed as a task.
---
 main.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/main.c b/main.c
index 4195cc8..642e43c 100755
--- a/main.c
+++ b/main.c
@@ -309,6 +309,8 @@ static int DaemonInit(void)
 #else /* _WIN32 */
 
     pid_t   pid;
+    int     Null;
+
     if( (pid = fork()) < 0 )
     {
         return 1;
@@ -322,9 +324,24 @@ static int DaemonInit(void)
         }
         setsid();
         umask(0); /* clear file mode creation mask */
-        close(0);
-        close(1);
-        close(2);
+        /* Keep 0, 1 and 2 occupied, or pipes and sockets opened later would
+         * be the standard streams of this process and of what it executes.
+         */
+        Null = open("/dev/null", O_RDWR);
+        if( Null < 0 )
+        {
+            close(0);
+            close(1);
+            close(2);
+        } else {
+            dup2(Null, 0);
+            dup2(Null, 1);
+            dup2(Null, 2);
+            if( Null > 2 )
+            {
+                close(Null);
+            }
+        }
         return 0;
     }
 #endif /* _WIN32 */
-- 
2.43.0


From fbffcc39f08eebceaf353c1063eb09950df501b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:41 +0000
Subject: [PATCH 52/60] fix: a query for the root matched rules by what was
 left of the query before it

Its name is empty, and the search for parent domains started behind its end.
---
 stringchunk.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stringchunk.c b/stringchunk.c
index 8d07709..28ed951 100755
--- a/stringchunk.c
+++ b/stringchunk.c
@@ -436,6 +436,12 @@ BOOL StringChunk_Domain_Match_NoWildCard(StringChunk    *dl,
         return TRUE;
     }
 
+    if( *Domain == '\0' )
+    {
+        /* The root domain has no parents */
+        return FALSE;
+    }
+
     Domain = strchr(Domain + 1, '.');
 
     while( Domain != NULL )
-- 
2.43.0


From 089aa65ba2ce404802c5fca16c0248b4d4236b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:49 +0000
Subject: [PATCH 53/60] fix: what follows a short A or AAAA record was taken
 for its address

It was compared with BlockIP and IPSubstituting, and overwritten by a substitution.
---
 ipmisc.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ipmisc.c b/ipmisc.c
index d520aae..c56bf6d 100755
--- a/ipmisc.c
+++ b/ipmisc.c
@@ -99,6 +99,12 @@ static int IPMisc_Process(IPMisc *m,
             continue;
         }
 
+        if( i.DataLength != DataLength )
+        {
+            /* Not an address */
+            continue;
+        }
+
         RowDataPos = i.RowData(&i);
         if( IpChunk_Find(&(m->c),
                          (unsigned char *)RowDataPos,
-- 
2.43.0


From c1d64b2f33a89d9949cb10cfebb0cf540e4242bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:24 +0000
Subject: [PATCH 54/60] fix: programs run by the service kept its sockets open

When the service ended while the hosts script was running, its
addresses could not be opened again before the script had ended.
---
 tcpfrontend.c | 4 ++++
 udpfrontend.c | 2 ++
 utils.c       | 7 +++++++
 utils.h       | 3 +++
 4 files changed, 16 insertions(+)

diff --git a/tcpfrontend.c b/tcpfrontend.c
index c6f20d4..261cc3d 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -71,6 +71,8 @@ static void TcpFrontend_Accept(SOCKET sock, sa_family_t Family)
         return;
     }
 
+    SetSocketCloseOnExec(sock_c);
+
     Client.Address.family = Family;
     Client.Context = SafeMalloc(SOCKET_CONTEXT_LENGTH);
     if( Client.Context == NULL ||
@@ -282,6 +284,8 @@ int TcpFrontend_Init(ConfigFileInfo *ConfigInfo, BOOL StartWork)
             continue;
         }
 
+        SetSocketCloseOnExec(sock);
+
 #ifndef _WIN32
         {
             /* closed connections of an earlier run must not prevent binding */
diff --git a/udpfrontend.c b/udpfrontend.c
index 28f44de..bcee062 100755
--- a/udpfrontend.c
+++ b/udpfrontend.c
@@ -168,6 +168,8 @@ int UdpFrontend_Init(ConfigFileInfo *ConfigInfo, BOOL StartWork)
             continue;
         }
 
+        SetSocketCloseOnExec(sock);
+
         if( bind(sock,
                  (const struct sockaddr *)&(a.Addr),
                  GetAddressLength(f)
diff --git a/utils.c b/utils.c
index d3c1049..86c3bb0 100755
--- a/utils.c
+++ b/utils.c
@@ -1197,6 +1197,13 @@ int SetSocketNonBlock(SOCKET sock, BOOL NonBlocked)
 #endif
 }
 
+void SetSocketCloseOnExec(SOCKET sock)
+{
+#ifndef _WIN32
+    fcntl(sock, F_SETFD, FD_CLOEXEC);
+#endif /* _WIN32 */
+}
+
 int SetSocketTimeout(SOCKET Sock, int OptName, int Timeout)
 {
 #ifdef _WIN32
diff --git a/utils.h b/utils.h
index 34956be..b329a32 100755
--- a/utils.h
+++ b/utils.h
@@ -153,6 +153,9 @@ int SetSocketIPv6V6only(SOCKET sock, int on);
 
 int SetSocketNonBlock(SOCKET sock, BOOL NonBlocked);
 
+/* Programs we run must not keep the socket open */
+void SetSocketCloseOnExec(SOCKET sock);
+
 int SetSocketTimeout(SOCKET Sock, int OptName, int Timeout);
 
 BOOL SocketIsWritable(SOCKET sock, int Timeout);
-- 
2.43.0


From 9ae389e0d0363668a537acc889b72dbe3f91aab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:18 +0000
Subject: [PATCH 55/60] fix: with the clock set back, cached records lived on,
 with TTLs larger than ever stated

(As after a reboot of a system without a hardware clock.)
---
 dnscache.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index ddabdc1..df826ea 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -56,6 +56,14 @@ struct _Header{
     char        Comment[128 - sizeof(uint32_t) - sizeof(int32_t) - sizeof(int32_t) - sizeof(int32_t) - sizeof(CacheHT)];
 };
 
+/* What was added in the future (the clock has been set back) is not alive:
+   nobody knows its age. */
+static BOOL DNSCache_IsAlive(const Cht_Node *Node, time_t CurrentTime)
+{
+    return CurrentTime >= Node->TimeAdded &&
+           CurrentTime - Node->TimeAdded < Node->TTL;
+}
+
 static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
 {
     BOOL        Removed = FALSE;
@@ -75,7 +83,7 @@ static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
     {
         if( Node->TTL > 0 )
         {
-            if( CurrentTime - Node->TimeAdded >= Node->TTL )
+            if( !DNSCache_IsAlive(Node, CurrentTime) )
             {
                 Removed = TRUE;
 
@@ -502,7 +510,7 @@ static Cht_Node *DNSCache_FindFromCache(const char *Content, size_t Length, Cht_
             return NULL;
         }
 
-        if( IgnoreTTL == TRUE || (CurrentTime - Node->TimeAdded < Node->TTL) )
+        if( IgnoreTTL == TRUE || DNSCache_IsAlive(Node, CurrentTime) )
         {
             if( memcmp(Content, MapStart + Node->Offset + 1, Length) == 0 )
             {
-- 
2.43.0


From ee9535f7eb9e5643ffc8c5e087ed1a7172c91516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:51 +0000
Subject: [PATCH 56/60] fix: sweep redirect contexts although it never becomes
 quiet

Queries through an alias whose upstream answer never comes were dropped
only when no datagram arrived for ten seconds; under continuous traffic
they piled up without bound.
---
 hosts.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/hosts.c b/hosts.c
index 98245f9..5987248 100755
--- a/hosts.c
+++ b/hosts.c
@@ -6,6 +6,7 @@
 #include "logs.h"
 #include "domainstatistic.h"
 #include "mmgr.h"
+#include <time.h>
 
 extern BOOL Ipv6_Enabled;
 
@@ -133,6 +134,7 @@ Hosts_SocketLoop(void *Unused)
     const struct timeval ShortTime = {10, 0};
 
     struct timeval  TimeLimit = LongTime;
+    time_t LastSweep = time(NULL);
 
     #define LEFT_LENGTH_SL (SOCKET_CONTEXT_LENGTH - sizeof(IHeader))
 
@@ -190,7 +192,18 @@ Hosts_SocketLoop(void *Unused)
             }
             TimeLimit = LongTime;
             Context.Sweep(&Context, NULL, NULL);
-        } else if( Pulled == InnerSocket )
+            LastSweep = time(NULL);
+            continue;
+        }
+
+        /* It may never become quiet */
+        if( time(NULL) < LastSweep || time(NULL) - LastSweep >= ShortTime.tv_sec )
+        {
+            Context.Sweep(&Context, NULL, NULL);
+            LastSweep = time(NULL);
+        }
+
+        if( Pulled == InnerSocket )
         {
             /* Recursive query */
             MsgContext *MsgCtxStored;
-- 
2.43.0


From 910d64bcce80258b6284e4d5c0e53300e2c0d090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:38 +0000
Subject: [PATCH 57/60] fix: malformed addresses in lists were written outside
 their place

An IPv6 address with more than eight groups, as a line of a hosts,
substitution or block list may have it, was written beyond (or, after
`::', before) the 16 bytes there are. What is missing of an address
was taken from memory never written.
---
 utils.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/utils.c b/utils.c
index 86c3bb0..8fe8044 100755
--- a/utils.c
+++ b/utils.c
@@ -458,7 +458,7 @@ int IPv6AddressToNum(const char *asc, void *Buffer)
 
     if( strstr(asc, "::") == NULL )
     {   /* full format */
-        uint32_t a[8];
+        uint32_t a[8] = {0};
         sscanf(asc, "%x:%x:%x:%x:%x:%x:%x:%x",
                 a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7
                 );
@@ -492,6 +492,13 @@ int IPv6AddressToNum(const char *asc, void *Buffer)
                 break;
             }
 
+            if( buf_s == (int16_t *)Buffer + 8 )
+            {
+                /* More than there can be */
+                return 0;
+            }
+
+            a = 0;
             sscanf(itr, "%x:", &a);
             SET_16_BIT_U_INT(buf_s, a);
             ++buf_s;
@@ -507,6 +514,13 @@ int IPv6AddressToNum(const char *asc, void *Buffer)
             if( *(itr + 1) == '\0' )
                 break;
 
+            if( buf_s < (int16_t *)Buffer )
+            {
+                /* More than there can be */
+                return 0;
+            }
+
+            a = 0;
             sscanf(itr + 1, "%x", &a);
             SET_16_BIT_U_INT(buf_s, a);
             --buf_s;
@@ -526,7 +540,7 @@ int IPv4AddressToNum(const char *asc, void *Buffer)
 
     unsigned char *BufferInByte = (unsigned char *)Buffer;
 
-    int Components[4];
+    int Components[4] = {0};
 
     ret = sscanf(asc, "%d.%d.%d.%d", Components, Components + 1, Components + 2, Components + 3);
     BufferInByte[0] = Components[0];
-- 
2.43.0


From 5901109582ce18165bfa8c27dfa16903221add31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:38 +0000
Subject: [PATCH 58/60] fix: a path that cannot be expanded ended the service

---
 utils.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/utils.c b/utils.c
index 8fe8044..29fae17 100755
--- a/utils.c
+++ b/utils.c
@@ -964,11 +964,10 @@ int ExpandPath(char *String, int BufferLength)
 
     if( wordexp(String, &Result, 0) != 0 )
     {
-        wordfree(&Result);
         return -1;
     }
 
-    if( strlen(Result.we_wordv[0]) + 1 <= BufferLength )
+    if( Result.we_wordc > 0 && strlen(Result.we_wordv[0]) + 1 <= BufferLength )
     {
         strcpy(String, Result.we_wordv[0]);
     }
-- 
2.43.0


From 6618cb9044d0c2b0fac225c0e2d8b4dd69f2b977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:38 +0000
Subject: [PATCH 59/60] fix: a UDP group without a valid address ended the
 service

As it may come with a reload of a group file, by a division by zero.
---
 udpm.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/udpm.c b/udpm.c
index 536e224..f97466d 100755
--- a/udpm.c
+++ b/udpm.c
@@ -400,18 +400,18 @@ int UdpM_Init(UdpM *m, const char *Services, BOOL Parallel)
 
     Addresses.Free(&Addresses);
 
-    if( Parallel )
+    if( AddressList_GetOneBySubscript(&(m->AddrList),
+                                      &(m->Parallels.familiy),
+                                      0
+                                      )
+       == NULL )
     {
-        if( AddressList_GetOneBySubscript(&(m->AddrList),
-                                          &(m->Parallels.familiy),
-                                          0
-                                          )
-           == NULL )
-        {
-            ret = -184;
-            goto EXIT_2;
-        }
+        ret = -184;
+        goto EXIT_2;
+    }
 
+    if( Parallel )
+    {
         m->Parallels.addrs =
             AddressList_GetPtrListOfFamily(&(m->AddrList),
                                            m->Parallels.familiy
-- 
2.43.0


From 3db6b68a4aa4778d7ec633ad52f92ba7caff6def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:38 +0000
Subject: [PATCH 60/60] fix: what is missing in values was taken from memory
 never written

---
 addresslist.c    |  4 ++--
 cachettlcrtl.c   |  2 +-
 filter.c         |  6 ++++--
 goodiplist.c     | 11 +++++++----
 hostscontainer.c |  2 +-
 readconfig.c     |  2 +-
 6 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/addresslist.c b/addresslist.c
index 2156fc2..438f62e 100755
--- a/addresslist.c
+++ b/addresslist.c
@@ -52,7 +52,7 @@ sa_family_t AddressList_ConvertFromString(Address_Type *Out, const char *Addr_Po
         case AF_INET6:
             {
                 char        Addr[LENGTH_OF_IPV6_ADDRESS_ASCII + 1] = {0};
-                in_port_t   Port;
+                in_port_t   Port = DefaultPort;
                 const char  *PortPos;
 
                 memset(Addr, 0, sizeof(Addr));
@@ -86,7 +86,7 @@ sa_family_t AddressList_ConvertFromString(Address_Type *Out, const char *Addr_Po
         case AF_INET:
             {
                 char        Addr[LENGTH_OF_IPV4_ADDRESS_ASCII + 1] = {0};
-                in_port_t   Port;
+                in_port_t   Port = DefaultPort;
                 const char  *PortPos;
 
                 memset(Addr, 0, sizeof(Addr));
diff --git a/cachettlcrtl.c b/cachettlcrtl.c
index 8b0753d..650ab7a 100755
--- a/cachettlcrtl.c
+++ b/cachettlcrtl.c
@@ -27,7 +27,7 @@ int CacheTtlCrtl_Add(CacheTtlCtrl *c, const char *Domain, int State, uint32_t Co
 
 int CacheTtlCrtl_Add_From_String(CacheTtlCtrl *c, const char *Rule)
 {
-    char    Domain[128], Cmd[16], Arg[64];
+    char    Domain[128] = "", Cmd[16] = "", Arg[64] = "";
     int     State;
     uint32_t Coefficient = 0;
     uint32_t Increment = 0;
diff --git a/filter.c b/filter.c
index 8998911..e839b94 100755
--- a/filter.c
+++ b/filter.c
@@ -193,8 +193,10 @@ static int FilterType_Init(ConfigFileInfo *ConfigInfo)
     OneTypePendingToAdd_Str = sli.Next(&sli);
     while( OneTypePendingToAdd_Str != NULL )
     {
-        sscanf(OneTypePendingToAdd_Str, "%d", &OneTypePendingToAdd);
-        DisabledTypes->Add(DisabledTypes, &OneTypePendingToAdd);
+        if( sscanf(OneTypePendingToAdd_Str, "%d", &OneTypePendingToAdd) == 1 )
+        {
+            DisabledTypes->Add(DisabledTypes, &OneTypePendingToAdd);
+        }
 
         OneTypePendingToAdd_Str = sli.Next(&sli);
     }
diff --git a/goodiplist.c b/goodiplist.c
index b7529ec..b6da838 100755
--- a/goodiplist.c
+++ b/goodiplist.c
@@ -176,9 +176,7 @@ static int InitListsAndTimes(ConfigFileInfo *ConfigInfo)
         ListInfo    m = {0, Array_Init_Static(sizeof(struct sockaddr_in))};
         char n[128];
 
-        sscanf(Itr, "%127s%d", n, &(m.Interval));
-
-        if( m.Interval <= 0 )
+        if( sscanf(Itr, "%127s%d", n, &(m.Interval)) != 2 || m.Interval <= 0 )
         {
             ERRORMSG("GoodIpList is invalid : %s\n", Itr);
             continue;
@@ -217,7 +215,12 @@ static int AddToLists(ConfigFileInfo *ConfigInfo)
         int Port;
         struct sockaddr_in  ip;
 
-        sscanf(Itr, "%127s%*[^0123456789]%15[^:]:%d", n, ip_str, &Port);
+        if( sscanf(Itr, "%127s%*[^0123456789]%15[^:]:%d", n, ip_str, &Port) != 3 )
+        {
+            ERRORMSG("GoodIPListAddIP is invalid : %s\n", Itr);
+            continue;
+        }
+
         ip.sin_port = htons(Port);
         ip.sin_family = AF_INET; /* IPv4 only */
 
diff --git a/hostscontainer.c b/hostscontainer.c
index 132db57..0572858 100755
--- a/hostscontainer.c
+++ b/hostscontainer.c
@@ -310,7 +310,7 @@ PRIFUNC int HostsContainer_AddGoodIpList(HostsContainer *Container,
                                          const char *Domain
                                          )
 {
-    char            Trimed[128];
+    char            Trimed[128] = "";
 
     sscanf(ListName, "<%127[^>]", Trimed);
 
diff --git a/readconfig.c b/readconfig.c
index 76114fa..60e7ee5 100755
--- a/readconfig.c
+++ b/readconfig.c
@@ -265,7 +265,7 @@ static void ParseInt32(ConfigOption *Option, const char *Value)
 
         case STRATEGY_APPEND:
             {
-                int32_t SpecifiedValue;
+                int32_t SpecifiedValue = 0;
 
                 sscanf(Value, "%d", &SpecifiedValue);
                 Option->Holder.INT32 += SpecifiedValue;
-- 
2.43.0

