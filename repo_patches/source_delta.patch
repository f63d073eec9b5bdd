From 6bd6d9c66f7a6f7a919e2e5d945dc238938f15d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:07 +0000
Subject: [PATCH 01/76] fix: re-opening a named object wrote past its memory
 and unlocked it before it was rebuilt

---
 sync/sync_util.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 7599368..a9c87ac 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -280,14 +280,15 @@ namespace CubicleSoft
 							else
 							{
 								// If this is the first reference, reset the RAM to 0's for platform consistency to force a rebuild of the object.
-								memset(MemPtr, 0, Size);
+								memset(MemPtr, 0, Size - StartPos);
 
 								Result = 0;
 							}
 
 							RefCountPtr[0]++;
 
-							pthread_mutex_unlock(MutexPtr);
+							// The caller rebuilds the object and then calls UnixNamedMemReady() if this is the first reference.
+							if (Result)  pthread_mutex_unlock(MutexPtr);
 						}
 
 						close(fp);
-- 
2.43.0


From 810275d8643cbc4a5cc5e67485be86d42e463481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:07 +0000
Subject: [PATCH 02/76] fix: a timed semaphore wait kept the internal mutex
 locked when the clock failed

---
 sync/sync_util.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index a9c87ac..57fadaa 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -412,7 +412,13 @@ namespace CubicleSoft
 			{
 				struct timespec TempTime;
 
-				if (CSGX__ClockGetTimeRealtime(&TempTime) == -1)  return false;
+				if (CSGX__ClockGetTimeRealtime(&TempTime) == -1)
+				{
+					pthread_mutex_unlock(UnixSemaphore.MxMutex);
+
+					return false;
+				}
+
 				TempTime.tv_sec += Wait / 1000;
 				TempTime.tv_nsec += (Wait % 1000) * 1000000;
 				TempTime.tv_sec += TempTime.tv_nsec / 1000000000;
-- 
2.43.0


From 7a824604d9f0e1ec4be51adf76d135739c841a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:08 +0000
Subject: [PATCH 03/76] fix: an automatic event fired while a wait timed out
 left other waiters asleep

---
 sync/sync_util.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 57fadaa..633908f 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -587,7 +587,8 @@ namespace CubicleSoft
 
 				UnixEvent.MxWaiting[0]--;
 
-				if (Result2 == 0)
+				// An event that was fired between the timeout and reacquiring the mutex counts.  Other threads may have queued up behind this one.
+				if (Result2 == 0 || UnixEvent.MxSignaled[0] != '\x00')
 				{
 					// Reset auto events.
 					if (UnixEvent.MxManual[0] == '\x00')  UnixEvent.MxSignaled[0] = '\x00';
-- 
2.43.0


From f05e43ddf5d6378bc0fbc9f23a61aa9b9caee622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:40 +0000
Subject: [PATCH 04/76] fix: read/write lock timeouts counted seconds as
 milliseconds, so waits took up to twice the timeout

---
 sync/sync_readwritelock.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/sync/sync_readwritelock.cpp b/sync/sync_readwritelock.cpp
index a759d8f..65206cc 100644
--- a/sync/sync_readwritelock.cpp
+++ b/sync/sync_readwritelock.cpp
@@ -72,14 +72,14 @@ namespace CubicleSoft
 			if (MxWinRSemaphore == NULL || MxWinRSemMutex == NULL || MxWinRWaitEvent == NULL || MxWinWWaitMutex == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.  Guarantees that readers can't starve the writer.
 			DWORD Result = ::WaitForSingleObject(MxWinWWaitMutex, Wait);
 			if (Result != WAIT_OBJECT_0)  return false;
 
 			// Acquire the semaphore mutex.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRSemMutex, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
@@ -88,7 +88,7 @@ namespace CubicleSoft
 			}
 
 			// Acquire the semaphore.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRSemaphore, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinRSemMutex, 1, NULL);
@@ -121,14 +121,14 @@ namespace CubicleSoft
 			if (MxWinRWaitEvent == NULL || MxWinWWaitMutex == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.
 			DWORD Result = ::WaitForSingleObject(MxWinWWaitMutex, Wait);
 			if (Result != WAIT_OBJECT_0)  return false;
 
 			// Wait for readers to reach zero.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRWaitEvent, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
@@ -262,13 +262,13 @@ namespace CubicleSoft
 			if (MxMem == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.  Guarantees that readers can't starve the writer.
 			if (!Util::WaitForUnixSemaphore(MxPthreadWWaitMutex, Wait))  return false;
 
 			// Acquire the counter mutex.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || !Util::WaitForUnixSemaphore(MxPthreadRCountMutex, Wait - (CurrTime - StartTime)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
@@ -302,13 +302,13 @@ namespace CubicleSoft
 			if (MxMem == NULL)  return false;
 
 			// Get current time in milliseconds.
-			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			StartTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 
 			// Acquire the write lock mutex.
 			if (!Util::WaitForUnixSemaphore(MxPthreadWWaitMutex, Wait))  return false;
 
 			// Wait for readers to reach zero.
-			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000000);
+			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
 			if (Wait < CurrTime - StartTime || !Util::WaitForUnixEvent(MxPthreadRWaitEvent, Wait - (CurrTime - StartTime)))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
-- 
2.43.0


From 75ed3f2d11739bd168979ce177bbf294d84478ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:40 +0000
Subject: [PATCH 05/76] fix: re-creating a mutex left the old one locked for
 everybody else, or leaked it

---
 sync/sync_mutex.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/sync/sync_mutex.cpp b/sync/sync_mutex.cpp
index ee4873f..c09d8d9 100644
--- a/sync/sync_mutex.cpp
+++ b/sync/sync_mutex.cpp
@@ -157,18 +157,11 @@ namespace CubicleSoft
 			{
 				if (MxOwnerID == Util::GetCurrentThreadID())
 				{
-					if (MxNamed)  Util::UnmapUnixNamedMem(MxMem, Util::GetUnixSemaphoreSize());
-					else
-					{
-						Util::FreeUnixSemaphore(MxPthreadMutex);
-
-						delete[] MxMem;
-					}
-
-					MxNamed = false;
-					MxMem = NULL;
 					MxCount = 0;
 					MxOwnerID = 0;
+
+					// Release the mutex.
+					Util::ReleaseUnixSemaphore(MxPthreadMutex, NULL);
 				}
 				else
 				{
@@ -178,6 +171,20 @@ namespace CubicleSoft
 				}
 			}
 
+			if (MxMem != NULL)
+			{
+				if (MxNamed)  Util::UnmapUnixNamedMem(MxMem, Util::GetUnixSemaphoreSize());
+				else
+				{
+					Util::FreeUnixSemaphore(MxPthreadMutex);
+
+					delete[] MxMem;
+				}
+
+				MxNamed = false;
+				MxMem = NULL;
+			}
+
 			size_t Pos, TempSize = Util::GetUnixSemaphoreSize();
 			MxNamed = (Name != NULL);
 			int Result = Util::InitUnixNamedMem(MxMem, Pos, "/Sync_Mutex", Name, TempSize);
-- 
2.43.0


From a2ef5486f533ac4e5369c1b27e2fcd79e3695a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:40 +0000
Subject: [PATCH 06/76] fix: locking a mutex that was never created used
 uninitialised pointers

---
 sync/sync_mutex.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sync/sync_mutex.cpp b/sync/sync_mutex.cpp
index c09d8d9..cc1a301 100644
--- a/sync/sync_mutex.cpp
+++ b/sync/sync_mutex.cpp
@@ -215,6 +215,14 @@ namespace CubicleSoft
 		{
 			if (pthread_mutex_lock(&MxPthreadCritSection) != 0)  return false;
 
+			// Make sure the mutex exists.
+			if (MxMem == NULL)
+			{
+				pthread_mutex_unlock(&MxPthreadCritSection);
+
+				return false;
+			}
+
 			// Check to see if this mutex is already owned by the calling thread.
 			if (MxOwnerID == Util::GetCurrentThreadID())
 			{
-- 
2.43.0


From e07be09ea3ccaaf86e2de8bb4e8e0f7e9b6e4eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:40 +0000
Subject: [PATCH 07/76] fix: a re-created shared memory handle kept claiming to
 be the first

---
 sync/sync_sharedmem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sync/sync_sharedmem.cpp b/sync/sync_sharedmem.cpp
index fdfa1c2..a557dbe 100644
--- a/sync/sync_sharedmem.cpp
+++ b/sync/sync_sharedmem.cpp
@@ -87,6 +87,7 @@ namespace CubicleSoft
 
 			MxMemInternal = NULL;
 			MxMem = NULL;
+			MxFirst = false;
 
 			size_t Pos, TempSize = Size;
 			int Result = Util::InitUnixNamedMem(MxMemInternal, Pos, "/Sync_SharedMem", Name, TempSize);
-- 
2.43.0


From 254ccf0901c80ee2429b1c8f518246b5930ef245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:00 +0000
Subject: [PATCH 08/76] fix: threads creating named objects at the same time
 could leave the process with umask 0

---
 sync/sync_util.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 633908f..f0a59f3 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -211,8 +211,13 @@ namespace CubicleSoft
 				std::uint32_t *RefCountPtr;
 
 				// Attempt to create the named shared memory object.
+				// The file creation mask is process-wide so only one thread at a time may change and restore it.
+				static pthread_mutex_t MaskMutex = PTHREAD_MUTEX_INITIALIZER;
+				pthread_mutex_lock(&MaskMutex);
 				mode_t PrevMask = umask(0);
 				int fp = shm_open(Name2, O_RDWR | O_CREAT | O_EXCL, 0666);
+				umask(PrevMask);
+				pthread_mutex_unlock(&MaskMutex);
 				if (fp > -1)
 				{
 					// Ignore platform errors (for now).
@@ -294,8 +299,6 @@ namespace CubicleSoft
 						close(fp);
 					}
 				}
-
-				umask(PrevMask);
 			}
 
 			return Result;
-- 
2.43.0


From efa9b616da79135091ba3a9e73694553b0a5757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:37 +0000
Subject: [PATCH 09/76] fix: thread allocator lost data on large reallocs and
 crashed when out of memory

---
 sync/sync_tls.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index a484111..ee393cc 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -74,10 +74,13 @@ namespace CubicleSoft
 
 			void *Data;
 			size_t Pos = NormalizeBitPosition(Size);
+			if (Size == 0)  return NULL;
 			Size++;
 			if (MainPtr->GetSize() <= Pos)
 			{
 				Data = ::malloc(Size);
+				if (Data == NULL)  return NULL;
+
 				Data = (std::uint8_t *)Data + 1;
 			}
 			else
@@ -114,6 +117,7 @@ namespace CubicleSoft
 
 			// See if it fits in the current size.
 			size_t Pos = NormalizeBitPosition(NewSize);
+			if (NewSize == 0)  return NULL;
 			size_t Pos2 = (size_t)((std::uint8_t *)Data)[-1];
 			if (Pos <= Pos2)  return Data;
 
@@ -124,15 +128,21 @@ namespace CubicleSoft
 			if (MainPtr->GetSize() <= Pos && MainPtr->GetSize() <= Pos2)
 			{
 				Data2 = ::realloc(((std::uint8_t *)Data) - 1, 1 + NewSize);
+				if (Data2 == NULL)  return NULL;
+
 				Data2 = (std::uint8_t *)Data2 + 1;
+
+				// Store the new position.
+				((std::uint8_t *)Data2)[-1] = (std::uint8_t)Pos;
 			}
 			else
 			{
 				// Allocate data.
 				Data2 = malloc(NewSize);
+				if (Data2 == NULL)  return NULL;
 
 				// Copy the data.
-				memcpy(Data2, Data, (1 << Pos2));
+				memcpy(Data2, Data, ((size_t)1 << Pos2));
 
 				// Free the previous object.
 				free(Data, Cache);
@@ -146,7 +156,7 @@ namespace CubicleSoft
 			if (Data == NULL)  return NULL;
 
 			// Allocate the appropriate size buffer.
-			size_t Size = (size_t)(1 << ((size_t)((std::uint8_t *)Data)[-1]));
+			size_t Size = ((size_t)1 << ((size_t)((std::uint8_t *)Data)[-1]));
 			void *Data2 = ::malloc(Size);
 			if (Data2 == NULL)  return NULL;
 
@@ -192,7 +202,7 @@ namespace CubicleSoft
 			else
 			{
 				Nodes = (*MainPtr)[Num].GetSize();
-				Size = (size_t)(1 << Num);
+				Size = ((size_t)1 << Num);
 				if (Size < sizeof(QueueNode<char>))  Size = sizeof(QueueNode<char>);
 				Size *= Nodes;
 			}
@@ -228,8 +238,10 @@ namespace CubicleSoft
 		{
 			size_t Pos = 3;
 
-			while (((size_t)1 << Pos) < Size)  Pos++;
-			Size = ((size_t)1 << Pos);
+			while (Pos < sizeof(size_t) * 8 && ((size_t)1 << Pos) < Size)  Pos++;
+
+			// A size of 0 indicates that the requested size is too large.
+			Size = (Pos < sizeof(size_t) * 8 ? ((size_t)1 << Pos) : 0);
 
 			return Pos;
 		}
-- 
2.43.0


From b816fc9fd4833f3371c85cf6c76f698cb374fd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:04 +0000
Subject: [PATCH 10/76] fix: copies of an ordered hash had empty hash chains
 and uninitialised list pointers

---
 templates/detachable_ordered_hash.h      | 2 +-
 templates/detachable_ordered_hash_util.h | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/templates/detachable_ordered_hash.h b/templates/detachable_ordered_hash.h
index 04ece5d..95a0cec 100644
--- a/templates/detachable_ordered_hash.h
+++ b/templates/detachable_ordered_hash.h
@@ -32,7 +32,7 @@ namespace CubicleSoft
 		}
 
 		// Only copies the data.  Pointers will still need to be set.
-		OrderedHashNode(const OrderedHashNode<T> &TempNode)
+		OrderedHashNode(const OrderedHashNode<T> &TempNode) : PrevHashNode(NULL), NextHashNode(NULL), PrevListNode(NULL), NextListNode(NULL)
 		{
 			HashKey = TempNode.HashKey;
 			IntKey = TempNode.IntKey;
diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index 48d6cc6..89cd5b1 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -71,7 +71,7 @@ public:
 		FirstListNode = NULL;
 		LastListNode = NULL;
 		OrderedHashNode<T> *Node = TempHash.FirstListNode;
-		OrderedHashNode<T> *Node2, *Node3;
+		OrderedHashNode<T> *Node2;
 		while (Node != NULL)
 		{
 			// Attach each cloned node to the end of the list.
@@ -92,6 +92,7 @@ public:
 			x = (size_t)(Node2->HashKey % HashSize);
 			Node2->NextHashNode = HashNodes[x];
 			if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node2;
+			HashNodes[x] = Node2;
 
 			Node = Node->NextListNode;
 		}
@@ -112,7 +113,7 @@ public:
 
 			if (HashNodes != NULL)  delete[] HashNodes;
 			OrderedHashNode<T> *Node = FirstListNode;
-			OrderedHashNode<T> *Node2, *Node3;
+			OrderedHashNode<T> *Node2;
 			while (Node != NULL)
 			{
 				Node2 = Node->NextListNode;
@@ -147,6 +148,7 @@ public:
 				x = (size_t)(Node2->HashKey % HashSize);
 				Node2->NextHashNode = HashNodes[x];
 				if (HashNodes[x] != NULL)  HashNodes[x]->PrevHashNode = Node2;
+				HashNodes[x] = Node2;
 
 				Node = Node->NextListNode;
 			}
-- 
2.43.0


From a0351f240e59e60abe5f91b03820854ede8b1e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:07 +0000
Subject: [PATCH 11/76] fix: attaching a node left over from an emptied ordered
 hash corrupted the list

---
 templates/detachable_ordered_hash_util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index 89cd5b1..17b9e46 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -272,6 +272,7 @@ public:
 		// Insert into the list.
 		if (Next == NULL)
 		{
+			Node->NextListNode = NULL;
 			Node->PrevListNode = LastListNode;
 			if (LastListNode != NULL)  LastListNode->NextListNode = Node;
 			LastListNode = Node;
@@ -336,6 +337,7 @@ public:
 		// Insert into the list.
 		if (Prev == NULL)
 		{
+			Node->PrevListNode = NULL;
 			Node->NextListNode = FirstListNode;
 			if (FirstListNode != NULL)  FirstListNode->PrevListNode = Node;
 			FirstListNode = Node;
-- 
2.43.0


From bfb49d0b70c6cb66c9c1639478a9b556b6963d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:10 +0000
Subject: [PATCH 12/76] fix: an ordered hash with an estimated size of 0
 divided by zero

---
 templates/detachable_ordered_hash_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index 17b9e46..a0c8b9a 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -24,7 +24,7 @@ public:
 #endif
 		(size_t EstimatedSize = 23, std::uint64_t HashKey = 5381) : UseSipHash(false), Key1(HashKey), Key2(0), HashNodes(NULL), HashSize(0), NextPrimePos(0), FirstListNode(NULL), LastListNode(NULL), NumListNodes(0)
 	{
-		ResizeHash(EstimatedSize);
+		ResizeHash(EstimatedSize ? EstimatedSize : OrderedHashUtil::Primes[0]);
 	}
 
 	// Keys are securely hashed via SipHash-2-4.
@@ -36,7 +36,7 @@ public:
 #endif
 		(size_t EstimatedSize, std::uint64_t HashKey1, std::uint64_t HashKey2) : UseSipHash(true), Key1(HashKey1), Key2(HashKey2), HashNodes(NULL), HashSize(0), NextPrimePos(0), FirstListNode(NULL), LastListNode(NULL), NumListNodes(0)
 	{
-		ResizeHash(EstimatedSize);
+		ResizeHash(EstimatedSize ? EstimatedSize : OrderedHashUtil::Primes[0]);
 	}
 
 #ifdef CUBICLESOFT_DETACHABLE_ORDEREDHASH_NOCOPYASSIGN
-- 
2.43.0


From 139c5b8b4a396d9f98cbed8053a36333c5d29ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:13 +0000
Subject: [PATCH 13/76] fix: a node refused by one ordered hash was filed under
 the wrong key in another

---
 templates/detachable_ordered_hash_util.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/templates/detachable_ordered_hash_util.h b/templates/detachable_ordered_hash_util.h
index a0c8b9a..dd2130d 100644
--- a/templates/detachable_ordered_hash_util.h
+++ b/templates/detachable_ordered_hash_util.h
@@ -260,14 +260,21 @@ public:
 		if (Node->PrevHashNode != NULL || Node->NextHashNode != NULL)  return NULL;
 
 		// Calculate and cache the hash key.
-		if (Node->HashKey == 0)
+		const bool NewHashKey = (Node->HashKey == 0);
+		if (NewHashKey)
 		{
 			if (Node->StrKey != NULL)  Node->HashKey = GetHashKey((std::uint8_t *)Node->StrKey, (size_t)Node->IntKey);
 			else  Node->HashKey = GetHashKey((std::uint8_t *)&(Node->IntKey), sizeof(std::int64_t));
 		}
 
 		// Unable to have two of the same key in the list.
-		if (Find(Node) != NULL)  return NULL;
+		if (Find(Node) != NULL)
+		{
+			// The node may be attached to an ordered hash with a different key later.
+			if (NewHashKey)  Node->HashKey = 0;
+
+			return NULL;
+		}
 
 		// Insert into the list.
 		if (Next == NULL)
@@ -325,14 +332,21 @@ public:
 		if (Node->PrevHashNode != NULL || Node->NextHashNode != NULL)  return NULL;
 
 		// Calculate and cache the hash key.
-		if (Node->HashKey == 0)
+		const bool NewHashKey = (Node->HashKey == 0);
+		if (NewHashKey)
 		{
 			if (Node->StrKey != NULL)  Node->HashKey = GetHashKey((std::uint8_t *)Node->StrKey, (size_t)Node->IntKey);
 			else  Node->HashKey = GetHashKey((std::uint8_t *)&(Node->IntKey), sizeof(std::int64_t));
 		}
 
 		// Unable to have two of the same key in the list.
-		if (Find(Node) != NULL)  return NULL;
+		if (Find(Node) != NULL)
+		{
+			// The node may be attached to an ordered hash with a different key later.
+			if (NewHashKey)  Node->HashKey = 0;
+
+			return NULL;
+		}
 
 		// Insert into the list.
 		if (Prev == NULL)
-- 
2.43.0


From e288fce5a95238014f857c18979e9c3387cb18d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:48 +0000
Subject: [PATCH 14/76] fix: copying a packed ordered hash ran past the end of
 its nodes

---
 templates/packed_ordered_hash_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 56f6bbf..2b401dc 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -84,7 +84,7 @@ public:
 		memcpy(HashNodes, TempHash.HashNodes, sizeof(std::uint32_t) * NumNodes);
 		NumUsed = TempHash.NumUsed;
 
-		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = ArrayNodes + NextNodePos;
+		PackedOrderedHashNode<T> *Node = TempHash.ArrayNodes, *Node2 = ArrayNodes, *LastNode = TempHash.ArrayNodes + NextNodePos;
 
 		while (Node != LastNode)
 		{
@@ -147,7 +147,7 @@ public:
 
 			Node = TempHash.ArrayNodes;
 			Node2 = ArrayNodes;
-			LastNode = ArrayNodes + NextNodePos;
+			LastNode = TempHash.ArrayNodes + NextNodePos;
 
 			while (Node != LastNode)
 			{
-- 
2.43.0


From 1f7cd2f197c4afcbc86d9a3e0e51644483cdab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:50 +0000
Subject: [PATCH 15/76] fix: growing a packed ordered hash leaked the old nodes

---
 templates/packed_ordered_hash_util.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/templates/packed_ordered_hash_util.h b/templates/packed_ordered_hash_util.h
index 2b401dc..2ae1584 100644
--- a/templates/packed_ordered_hash_util.h
+++ b/templates/packed_ordered_hash_util.h
@@ -510,6 +510,8 @@ private:
 
 				Node++;
 			}
+
+			delete[] (char *)ArrayNodes;
 		}
 
 		ArrayNodes = ArrayNodes2;
-- 
2.43.0


From 9087c909fc586bb9dd2033a72221636aef784988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:27 +0000
Subject: [PATCH 16/76] fix: assigning a 2D array of another size wrote through
 NULL and comparing 2D arrays did not compile

---
 templates/static_2d_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/static_2d_array.h b/templates/static_2d_array.h
index 88f5685..6b01f96 100644
--- a/templates/static_2d_array.h
+++ b/templates/static_2d_array.h
@@ -53,7 +53,7 @@ namespace CubicleSoft
 					Height = TempArray.Height;
 
 					size_t y = Width * Height;
-					if (y)
+					if (!y)
 					{
 						baseptr = NULL;
 						ptr = NULL;
@@ -89,7 +89,7 @@ namespace CubicleSoft
 			if (Width != TempArray.Width || Height != TempArray.Height)  return false;
 
 			size_t x, y = Width * Height;
-			for (x = 0; x < y && baseptr[x] == TempArray.ptr[x]; x++);
+			for (x = 0; x < y && baseptr[x] == TempArray.baseptr[x]; x++);
 			if (x < y)  return false;
 
 			return true;
-- 
2.43.0


From 172c992cc442ca868f2108fbc8950fea594ee42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:31 +0000
Subject: [PATCH 17/76] fix: a QueueNoCopy could be copied, freeing its nodes
 twice

---
 templates/detachable_queue_util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/templates/detachable_queue_util.h b/templates/detachable_queue_util.h
index 053617b..544a816 100644
--- a/templates/detachable_queue_util.h
+++ b/templates/detachable_queue_util.h
@@ -40,7 +40,7 @@ public:
 
 #ifdef CUBICLESOFT_DETACHABLE_QUEUE_NOCOPYASSIGN
 private:
-	QueueNoCopy(const Queue<T> &);
+	QueueNoCopy(const QueueNoCopy<T> &);
 	QueueNoCopy<T> &operator=(const QueueNoCopy<T> &);
 
 public:
-- 
2.43.0


From 87e568f2a4f8cd950f7e53d6cc3c75dd94090c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:21 +0000
Subject: [PATCH 18/76] fix: growing the output of a fast replace read past the
 end of the old output

---
 templates/fast_find_replace_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index d0c8857..9288b9e 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -563,7 +563,7 @@ public:
 				MxData = reinterpret_cast<T *>(AllocType::realloc(MxAltMallocManager, MxData, (NewSize + MxExtraAlloc) * sizeof(T)));
 #else
 				T *NewData = reinterpret_cast<T *>(new char[(NewSize + MxExtraAlloc) * sizeof(T)]);
-				memcpy(NewData, MxData, NewSize * sizeof(T));
+				memcpy(NewData, MxData, MxDataPos * sizeof(T));
 				delete[] reinterpret_cast<char *>(MxData);
 
 				MxData = NewData;
@@ -609,7 +609,7 @@ public:
 					MxData = reinterpret_cast<T *>(AllocType::realloc(MxAltMallocManager, MxData, (NewSize + MxExtraAlloc) * sizeof(T)));
 #else
 					T *NewData = reinterpret_cast<T *>(new char[(NewSize + MxExtraAlloc) * sizeof(T)]);
-					memcpy(NewData, MxData, (MxDataSize + MxExtraAlloc) * sizeof(T));
+					memcpy(NewData, MxData, MxDataPos * sizeof(T));
 					delete[] reinterpret_cast<char *>(MxData);
 
 					MxData = NewData;
-- 
2.43.0


From 87195a653f21b66bc1b13e93ca7299ed85df22e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:25 +0000
Subject: [PATCH 19/76] fix: fast replace copied overlapping memory in place
 and repeated the text of a match that was not replaced

---
 templates/fast_find_replace_util.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index 9288b9e..b7b0591 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -587,8 +587,9 @@ public:
 
 		if (SrcDist)
 		{
-			memcpy(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
+			memmove(MxData + MxDataPos, MxSrcCurr, SrcDist * sizeof(T));
 			MxDataPos += SrcDist;
+			MxSrcCurr += SrcDist;
 		}
 
 		return NextPos;
-- 
2.43.0


From b8dd44d797e62a6d11c9318afaf24579b9dfe349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:28 +0000
Subject: [PATCH 20/76] fix: fast replace dropped the text after the last
 replacement when its limit was reached

---
 templates/fast_find_replace_util.h | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index b7b0591..7303cd7 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -715,9 +715,9 @@ public:
 		const T *Pos;
 		size_t Num = 0;
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
-		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(ElementsEqual)) != NULL)
 #else
-		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(UseMemcmp)) != NULL)
 #endif
 		{
 			TempReplace.Replace(ReplaceWith, ReplaceWithSize);
@@ -725,6 +725,17 @@ public:
 			Num++;
 		}
 
+		// Keep whatever follows the last replacement when the limit was reached.
+		if (Num >= Limit)
+		{
+			TempReplace.MxFind.SetData(NULL, 0);
+#ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
+			TempReplace.FindNext(ElementsEqual);
+#else
+			TempReplace.FindNext(UseMemcmp);
+#endif
+		}
+
 		ResultSize = TempReplace.GetDataSize();
 		Result = TempReplace.DetachData();
 
@@ -783,9 +794,9 @@ public:
 		const T *Pos;
 		size_t Num = 0;
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
-		while ((Pos = TempReplace.FindNext(ElementsEqual)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(ElementsEqual)) != NULL)
 #else
-		while ((Pos = TempReplace.FindNext(UseMemcmp)) != NULL && Num < Limit)
+		while (Num < Limit && (Pos = TempReplace.FindNext(UseMemcmp)) != NULL)
 #endif
 		{
 			TempReplace.Replace(ReplaceWith, ReplaceWithSize);
@@ -793,6 +804,17 @@ public:
 			Num++;
 		}
 
+		// Keep whatever follows the last replacement when the limit was reached.
+		if (Num >= Limit)
+		{
+			TempReplace.MxFind.SetData(NULL, 0);
+#ifdef CUBICLESOFT_FAST_FIND_REPLACE_COMPAREFUNC
+			TempReplace.FindNext(ElementsEqual);
+#else
+			TempReplace.FindNext(UseMemcmp);
+#endif
+		}
+
 		ResultSize = TempReplace.GetDataSize();
 
 		return Num;
-- 
2.43.0


From 04d4be8b6c2e378ab64a2b10b2c8c75217c1a932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:31 +0000
Subject: [PATCH 21/76] fix: fast replace leaked its output when given new data
 and used uninitialised members before

---
 templates/fast_find_replace_util.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/templates/fast_find_replace_util.h b/templates/fast_find_replace_util.h
index 7303cd7..02c0c2b 100644
--- a/templates/fast_find_replace_util.h
+++ b/templates/fast_find_replace_util.h
@@ -432,7 +432,10 @@ public:
 #endif
 		MxGrowthSize = 1024;
 		MxExtraAlloc = 1;
+		MxSrcCurr = MxSrcEnd = NULL;
+		MxDataAllocated = false;
 		MxData = NULL;
+		MxDataSize = MxDataPos = 0;
 	}
 
 #ifdef CUBICLESOFT_FAST_FIND_REPLACE_MEMALLOC
@@ -517,6 +520,15 @@ public:
 	// Only pass in ResultBuffer and ResultBufferSize for static buffers and replacements that will be smaller than the original.
 	void SetData(const T *Data, size_t Size, T *ResultBuffer = NULL, size_t ResultBufferSize = 0)
 	{
+		if (MxData != NULL && MxDataAllocated)
+		{
+#ifdef CUBICLESOFT_FAST_FIND_REPLACE_MEMALLOC
+			AllocType::free(MxAltMallocManager, MxData);
+#else
+			delete[] reinterpret_cast<char *>(MxData);
+#endif
+		}
+
 		MxFind.SetData(Data, Size);
 
 		MxSrcCurr = Data;
-- 
2.43.0


From 521ad138e267fcd69a250ef5e2915a589687972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:57 +0000
Subject: [PATCH 22/76] fix: converting the smallest 64-bit integer to text
 overflowed

---
 convert/convert_int.cpp      | 4 ++--
 json/json_serializer.cpp     | 2 +-
 sync/sync_tls.cpp            | 2 +-
 templates/static_mixed_var.h | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/convert/convert_int.cpp b/convert/convert_int.cpp
index 1712940..0e8e507 100644
--- a/convert/convert_int.cpp
+++ b/convert/convert_int.cpp
@@ -50,7 +50,7 @@ namespace CubicleSoft
 			if (Size < 2)  return false;
 			Result[0] = '-';
 
-			return ToString(Result + 1, Size - 1, (std::uint64_t)-Num, Separator, Radix);
+			return ToString(Result + 1, Size - 1, (std::uint64_t)0 - (std::uint64_t)Num, Separator, Radix);
 		}
 
 		bool Int::ToFilesizeString(char *Result, size_t Size, std::uint64_t Num, size_t NumFrac, char NumSeparator, char DecimalSeparator, char UnitSeparator, const char *BytesUnit)
@@ -220,7 +220,7 @@ namespace CubicleSoft
 			if (Size < 2)  return false;
 			Result[0] = '-';
 
-			return ToFilesizeString(Result + 1, Size - 1, (std::uint64_t)-Num, NumFrac, NumSeparator, DecimalSeparator, UnitSeparator, BytesUnit);
+			return ToFilesizeString(Result + 1, Size - 1, (std::uint64_t)0 - (std::uint64_t)Num, NumFrac, NumSeparator, DecimalSeparator, UnitSeparator, BytesUnit);
 		}
 	}
 }
diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 231a791..65db46b 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -429,7 +429,7 @@ namespace CubicleSoft
 			if (Size < 2)  return false;
 			Result[0] = '-';
 
-			return IntToString(Result + 1, Size - 1, (std::uint64_t)-Num);
+			return IntToString(Result + 1, Size - 1, (std::uint64_t)0 - (std::uint64_t)Num);
 		}
 	}
 }
diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index ee393cc..4340cfd 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -486,7 +486,7 @@ namespace CubicleSoft
 			if (Size < 2)  return false;
 			Result[0] = '-';
 
-			return IntToString(Result + 1, Size - 1, (std::uint64_t)-Num, Radix);
+			return IntToString(Result + 1, Size - 1, (std::uint64_t)0 - (std::uint64_t)Num, Radix);
 		}
 	}
 }
diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index d1d060c..953f8ae 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -310,7 +310,7 @@ namespace CubicleSoft
 			if (Size < 2)  return false;
 			Result[0] = '-';
 
-			return IntToString(Result + 1, Size - 1, (std::uint64_t)-Num, Radix);
+			return IntToString(Result + 1, Size - 1, (std::uint64_t)0 - (std::uint64_t)Num, Radix);
 		}
 	};
 }
-- 
2.43.0


From 93cbf254547c1cc9441c2aa786e1a701d769f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:57 +0000
Subject: [PATCH 23/76] fix: fraction digits of exabyte-sized file sizes were
 wrong

---
 convert/convert_int.cpp | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/convert/convert_int.cpp b/convert/convert_int.cpp
index 0e8e507..19ffb34 100644
--- a/convert/convert_int.cpp
+++ b/convert/convert_int.cpp
@@ -161,30 +161,19 @@ namespace CubicleSoft
 
 			if (NumFrac)
 			{
-				if (x < NumFrac + 2)  return false;
+				if (x < 2 || x - 2 < NumFrac)  return false;
 
+				// One digit at a time.  The remainder times 10 always fits into 64 bits.
+				x -= NumFrac;
 				Extra = Num % Divider;
-				for (x2 = 0; x2 < NumFrac; x2++)  Extra *= 10ULL;
-				Extra /= Divider;
-
-				while (Extra && NumFrac && x)
-				{
-					Result[--x] = (char)(Extra % 10) + '0';
-					Extra /= 10;
-					NumFrac--;
-				}
-
-				while (NumFrac && x)
+				for (x2 = 0; x2 < NumFrac; x2++)
 				{
-					Result[--x] = '0';
-					NumFrac--;
+					Extra *= 10ULL;
+					Result[x + x2] = (char)(Extra / Divider) + '0';
+					Extra %= Divider;
 				}
 
-				if (Extra || !x)  return false;
-
 				Result[--x] = DecimalSeparator;
-
-				if (!x)  return false;
 			}
 
 			Num /= Divider;
-- 
2.43.0


From 86fb9889e618a99f1b0e32f3aab5273c49d819a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:39 +0000
Subject: [PATCH 24/76] fix: variant strings dropped long binary integers

---
 sync/sync_tls.cpp            | 8 ++++----
 templates/static_mixed_var.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 4340cfd..0fe7804 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -342,13 +342,13 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::PrependInt(const std::int64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
 		void TLS::MixedVar::PrependUInt(const std::uint64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
@@ -380,13 +380,13 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::AppendInt(const std::int64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
 		void TLS::MixedVar::AppendUInt(const std::uint64_t val, size_t radix)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index 953f8ae..291fc64 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -174,13 +174,13 @@ namespace CubicleSoft
 
 		void PrependInt(const std::int64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
 		void PrependUInt(const std::uint64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  PrependStr(tempbuffer);
 		}
 
@@ -218,13 +218,13 @@ namespace CubicleSoft
 
 		void AppendInt(const std::int64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
 		void AppendUInt(const std::uint64_t val, size_t radix = 10)
 		{
-			char tempbuffer[44];
+			char tempbuffer[68];
 			if (IntToString(tempbuffer, sizeof(tempbuffer), val, radix))  AppendStr(tempbuffer);
 		}
 
-- 
2.43.0


From 74728588f51990345d8491bdc76ba1969f7b5685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:42 +0000
Subject: [PATCH 25/76] fix: variant strings cut off doubles of high precision

---
 sync/sync_tls.cpp            | 4 ++--
 templates/static_mixed_var.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 0fe7804..0deb57d 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -354,7 +354,7 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::PrependDouble(const double val, const size_t precision)
 		{
-			char tempbuffer[100];
+			char tempbuffer[800];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
@@ -392,7 +392,7 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::AppendDouble(const double val, const size_t precision)
 		{
-			char tempbuffer[100];
+			char tempbuffer[800];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index 291fc64..3ac9f97 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -186,7 +186,7 @@ namespace CubicleSoft
 
 		void PrependDouble(const double val, const size_t precision = 16)
 		{
-			char tempbuffer[100];
+			char tempbuffer[800];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
@@ -230,7 +230,7 @@ namespace CubicleSoft
 
 		void AppendDouble(const double val, const size_t precision = 16)
 		{
-			char tempbuffer[100];
+			char tempbuffer[800];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(tempbuffer, sizeof(tempbuffer), _TRUNCATE, "%1.*g", precision, val);
 			tempbuffer[sizeof(tempbuffer) - 1] = '\0';
-- 
2.43.0


From cea055f077f7b009ea2ebd5a4ce5d0c0ff971293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:43 +0000
Subject: [PATCH 26/76] fix: copying a variant string freed an uninitialised
 pointer

---
 sync/sync_tls.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 0deb57d..5745025 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -272,13 +272,10 @@ namespace CubicleSoft
 		TLS::MixedVar::MixedVar(const TLS::MixedVar &TempVar)
 		{
 			MxTLS = TempVar.MxTLS;
+			MxStr = NULL;
+			MxStrPos = 0;
 
 			if (TempVar.MxStr != NULL)  SetData(TempVar.MxStr, TempVar.MxStrPos);
-			else
-			{
-				MxStr = NULL;
-				MxStrPos = 0;
-			}
 
 			MxMode = TempVar.MxMode;
 			MxInt = TempVar.MxInt;
-- 
2.43.0


From 7992afc78795ea83b267e3cd960fb9482653c8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:43 +0000
Subject: [PATCH 27/76] fix: assigning a variant string freed the old string
 with the other allocator

---
 sync/sync_tls.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index 5745025..fbb5e1a 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -287,16 +287,13 @@ namespace CubicleSoft
 		{
 			if (this != &TempVar)
 			{
+				if (MxStr != NULL)  MxTLS->free(MxStr);
+				MxStr = NULL;
+				MxStrPos = 0;
+
 				MxTLS = TempVar.MxTLS;
 
 				if (TempVar.MxStr != NULL)  SetData(TempVar.MxStr, TempVar.MxStrPos);
-				else
-				{
-					MxTLS->free(MxStr);
-
-					MxStr = NULL;
-					MxStrPos = 0;
-				}
 
 				MxMode = TempVar.MxMode;
 				MxInt = TempVar.MxInt;
-- 
2.43.0


From 910d1da62e342161fd794bb4d23d129a0845c5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:44 +0000
Subject: [PATCH 28/76] fix: resizing, replacing in or prepending to an empty
 variant string used a NULL pointer

---
 sync/sync_tls.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sync/sync_tls.cpp b/sync/sync_tls.cpp
index fbb5e1a..bfe3995 100644
--- a/sync/sync_tls.cpp
+++ b/sync/sync_tls.cpp
@@ -322,8 +322,11 @@ namespace CubicleSoft
 		{
 			char *str2 = (char *)MxTLS->malloc(size + MxStrPos + 1);
 			memcpy(str2, str, size);
-			memcpy(str2 + size, MxStr, MxStrPos);
-			MxTLS->free(MxStr);
+			if (MxStr != NULL)
+			{
+				memcpy(str2 + size, MxStr, MxStrPos);
+				MxTLS->free(MxStr);
+			}
 			MxStr = str2;
 			MxStrPos += size;
 			MxStr[MxStrPos] = '\0';
@@ -411,7 +414,7 @@ namespace CubicleSoft
 
 		void TLS::MixedVar::SetSize(size_t pos)
 		{
-			if (MxStrPos < pos)  MxStr = (char *)MxTLS->realloc(MxStr, pos + 1);
+			if (MxStr == NULL || MxStrPos < pos)  MxStr = (char *)MxTLS->realloc(MxStr, pos + 1);
 
 			MxStrPos = pos;
 			MxStr[MxStrPos] = '\0';
@@ -421,6 +424,8 @@ namespace CubicleSoft
 		{
 			size_t Num;
 
+			if (MxStr == NULL)  return 0;
+
 			if (srcsize < destsize)
 			{
 				char *Result;
-- 
2.43.0


From 283ce77617f7bec367d1698b3454026f296a9195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:05 +0000
Subject: [PATCH 29/76] fix: a new fixed-capacity variant held an unterminated
 string

---
 templates/static_mixed_var.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index 3ac9f97..3fce17b 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -35,6 +35,7 @@ namespace CubicleSoft
 
 		StaticMixedVar() : MxMode(MV_None), MxInt(0), MxDouble(0.0), MxStrPos(0)
 		{
+			MxStr[0] = '\0';
 		}
 
 		// Some functions for those who prefer member functions over directly accessing raw class data.
-- 
2.43.0


From 8357233956c4dc28354cd1b9ba193ec40f729331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:08 +0000
Subject: [PATCH 30/76] fix: prepending text that exactly fills a
 fixed-capacity variant was refused

---
 templates/static_mixed_var.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/static_mixed_var.h b/templates/static_mixed_var.h
index 3fce17b..ba4b170 100644
--- a/templates/static_mixed_var.h
+++ b/templates/static_mixed_var.h
@@ -155,7 +155,7 @@ namespace CubicleSoft
 		void PrependStr(const char *str)
 		{
 			size_t y = strlen(str);
-			if (MxStrPos + y < sizeof(MxStr) - 1)
+			if (MxStrPos + y < sizeof(MxStr))
 			{
 				memmove(MxStr + y, MxStr, MxStrPos + 1);
 				memcpy(MxStr, str, y);
@@ -165,7 +165,7 @@ namespace CubicleSoft
 
 		void PrependData(const char *str, size_t size)
 		{
-			if (MxStrPos + size < sizeof(MxStr) - 1)
+			if (MxStrPos + size < sizeof(MxStr))
 			{
 				memmove(MxStr + size, MxStr, MxStrPos + 1);
 				memcpy(MxStr, str, size);
-- 
2.43.0


From c36b9e0d2b5dd3e75118184805fa230330e21495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:37 +0000
Subject: [PATCH 31/76] fix: Unicode conversion into a full buffer skipped
 characters instead of stopping

---
 utf8/utf8_util.cpp | 32 ++++++++++++++++++++++++++------
 utf8/utf8_util.h   |  4 ++--
 2 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index f3aa7d8..2ed344d 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -64,7 +64,7 @@ namespace CubicleSoft
 			return DestData;
 		}
 
-		bool Util::AppendUTF8CodePoint(std::uint32_t TempCP, std::uint8_t *DestData, size_t &DestDataSize, size_t MaxDestDataSize)
+		bool Util::AppendUTF8CodePoint(std::uint32_t TempCP, std::uint8_t *DestData, size_t &DestDataSize, size_t &MaxDestDataSize)
 		{
 			// 0xD800-0xDFFF are for UTF-16 surrogate pairs.  Invalid characters.
 			// 0xFDD0-0xFDEF are non-characters.
@@ -85,7 +85,12 @@ namespace CubicleSoft
 			else if (TempCP <= 0x07FF)
 			{
 				if (DestData == NULL)  DestDataSize += 2;
-				else if (DestDataSize + 1 >= MaxDestDataSize)  return false;
+				else if (DestDataSize + 1 >= MaxDestDataSize)
+				{
+					MaxDestDataSize = DestDataSize;
+
+					return false;
+				}
 				else
 				{
 					DestData[DestDataSize++] = (std::uint8_t)(0xC0 | (TempCP >> 6));
@@ -97,7 +102,12 @@ namespace CubicleSoft
 			else if (TempCP <= 0xFFFF)
 			{
 				if (DestData == NULL)  DestDataSize += 3;
-				else if (DestDataSize + 2 >= MaxDestDataSize)  return false;
+				else if (DestDataSize + 2 >= MaxDestDataSize)
+				{
+					MaxDestDataSize = DestDataSize;
+
+					return false;
+				}
 				else
 				{
 					DestData[DestDataSize++] = (std::uint8_t)(0xE0 | (TempCP >> 12));
@@ -110,7 +120,12 @@ namespace CubicleSoft
 			else if (TempCP <= 0x10FFFF)
 			{
 				if (DestData == NULL)  DestDataSize += 4;
-				else if (DestDataSize + 3 >= MaxDestDataSize)  return false;
+				else if (DestDataSize + 3 >= MaxDestDataSize)
+				{
+					MaxDestDataSize = DestDataSize;
+
+					return false;
+				}
 				else
 				{
 					DestData[DestDataSize++] = (std::uint8_t)(0xF0 | (TempCP >> 18));
@@ -204,7 +219,7 @@ namespace CubicleSoft
 			}
 		}
 
-		bool Util::AppendUTFCodePoint(std::uint32_t TempCP, void *DestData, size_t &DestDataSize, size_t DestWidth, size_t MaxDestDataSize)
+		bool Util::AppendUTFCodePoint(std::uint32_t TempCP, void *DestData, size_t &DestDataSize, size_t DestWidth, size_t &MaxDestDataSize)
 		{
 			if (DestWidth == 1)  return AppendUTF8CodePoint(TempCP, (std::uint8_t *)DestData, DestDataSize, MaxDestDataSize);
 
@@ -224,7 +239,12 @@ namespace CubicleSoft
 				if (TempCP > 0xFFFF)
 				{
 					if (DestData2 == NULL)  DestDataSize += 2;
-					else if (DestDataSize + 1 >= MaxDestDataSize)  return false;
+					else if (DestDataSize + 1 >= MaxDestDataSize)
+					{
+						MaxDestDataSize = DestDataSize;
+
+						return false;
+					}
 					else
 					{
 						TempCP -= 0x010000;
diff --git a/utf8/utf8_util.h b/utf8/utf8_util.h
index 026aef8..8feea6f 100644
--- a/utf8/utf8_util.h
+++ b/utf8/utf8_util.h
@@ -50,8 +50,8 @@ namespace CubicleSoft
 			static bool IsCombiningCodePoint(std::uint32_t CodePoint);
 
 		private:
-			static bool AppendUTF8CodePoint(std::uint32_t TempCP, std::uint8_t *DestData, size_t &DestDataSize, size_t MaxDestDataSize);
-			static bool AppendUTFCodePoint(std::uint32_t TempCP, void *DestData, size_t &DestDataSize, size_t DestWidth, size_t MaxDestDataSize);
+			static bool AppendUTF8CodePoint(std::uint32_t TempCP, std::uint8_t *DestData, size_t &DestDataSize, size_t &MaxDestDataSize);
+			static bool AppendUTFCodePoint(std::uint32_t TempCP, void *DestData, size_t &DestDataSize, size_t DestWidth, size_t &MaxDestDataSize);
 		};
 	}
 }
-- 
2.43.0


From f615005b48e3ec0d2fb00cbaf0743cc732d180b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:37 +0000
Subject: [PATCH 32/76] fix: conversion from UTF-8 dropped everything after a
 rejected character, including the terminator

---
 utf8/utf8_util.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 2ed344d..dc83ac6 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -283,25 +283,25 @@ namespace CubicleSoft
 
 				if (TempCP <= 0x7F)
 				{
-					if (!AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y))  return;
+					AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y);
 					x++;
 				}
 				else if (x + 1 < SrcDataSize && (TempCP & 0xE0) == 0xC0 && (SrcData[x + 1] & 0xC0) == 0x80)
 				{
 					TempCP = (((TempCP & 0x1F) << 6) | ((std::uint32_t)SrcData[x + 1] & 0x3F));
-					if (!AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y))  return;
+					AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y);
 					x += 2;
 				}
 				else if (x + 2 < SrcDataSize && (TempCP & 0xF0) == 0xE0 && (SrcData[x + 1] & 0xC0) == 0x80 && (SrcData[x + 2] & 0xC0) == 0x80)
 				{
 					TempCP = (((TempCP & 0x0F) << 12) | (((std::uint32_t)SrcData[x + 1] & 0x3F) << 6) | ((std::uint32_t)SrcData[x + 2] & 0x3F));
-					if (!AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y))  return;
+					AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y);
 					x += 3;
 				}
 				else if (x + 3 < SrcDataSize && (TempCP & 0xF8) == 0xF0 && (SrcData[x + 1] & 0xC0) == 0x80 && (SrcData[x + 2] & 0xC0) == 0x80 && (SrcData[x + 3] & 0xC0) == 0x80)
 				{
 					TempCP = (((TempCP & 0x07) << 18) | (((std::uint32_t)SrcData[x + 1] & 0x3F) << 12) | (((std::uint32_t)SrcData[x + 2] & 0x3F) << 6) | ((std::uint32_t)SrcData[x + 3] & 0x3F));
-					if (!AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y))  return;
+					AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y);
 					x += 4;
 				}
 				else  x++;
-- 
2.43.0


From d6c85b23b0167dc9b187802ed9f3c13660e9b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:38 +0000
Subject: [PATCH 33/76] fix: UTF-8 scanning and allocating conversion recursed
 forever

---
 utf8/utf8_util.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index dc83ac6..8d3089a 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -3,6 +3,8 @@
 
 #include "utf8_util.h"
 
+#include <cstring>
+
 namespace CubicleSoft
 {
 	namespace UTF8
@@ -53,7 +55,8 @@ namespace CubicleSoft
 			size_t x, y;
 			void *DestData;
 
-			x = strlen(SrcData);
+			x = ::strlen(SrcData) + 1;
+			y = (size_t)-1;
 			ConvertFromUTF8((const std::uint8_t *)SrcData, x, NULL, y, DestWidth);
 			if (DestWidth == 1)  DestData = (AltMalloc != NULL ? (std::uint8_t *)AltMalloc(AltMallocManager, y) : new std::uint8_t[y]);
 			else if (DestWidth == 2)  DestData = (AltMalloc != NULL ? (std::uint16_t *)AltMalloc(AltMallocManager, y * sizeof(uint16_t)) : new uint16_t[y]);
@@ -359,7 +362,7 @@ namespace CubicleSoft
 			}
 			else
 			{
-				Size = strlen(Str);
+				Size = ::strlen(Str);
 				HasCombiningCP = false;
 
 				ResultCP = Str2[0];
-- 
2.43.0


From 9078dfba14a83a15ac131b53932eaad8a0067af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:39 +0000
Subject: [PATCH 34/76] fix: the resume position of a conversion to UTF-8 was
 wrong or unset

---
 utf8/utf8_util.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 8d3089a..0f22827 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -149,6 +149,7 @@ namespace CubicleSoft
 			std::uint32_t TempCP;
 
 			DestDataSize = 0;
+			if (LastPos != NULL)  *LastPos = 0;
 
 			if (SrcWidth == 1)
 			{
@@ -173,14 +174,14 @@ namespace CubicleSoft
 					else if (x + 2 < SrcDataSize && (TempCP & 0xF0) == 0xE0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x0F) << 12) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 2] & 0x3F));
-						AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y);
 						x += 3;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
 					else if (x + 3 < SrcDataSize && (TempCP & 0xF8) == 0xF0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80 && (SrcData2[x + 3] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x07) << 18) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 12) | (((std::uint32_t)SrcData2[x + 2] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 3] & 0x3F));
-						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 						x += 4;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
 					else  x++;
 				}
@@ -195,7 +196,7 @@ namespace CubicleSoft
 					TempCP = SrcData2[x];
 					if (TempCP < 0xD800 || TempCP > 0xDBFF)
 					{
-						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
+						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x + 1;
 					}
 					else
 					{
@@ -204,7 +205,7 @@ namespace CubicleSoft
 						if (x < SrcDataSize && SrcData2[x] >= 0xDC00 && SrcData2[x] <= 0xDFFF)
 						{
 							TempCP = (((TempCP - 0xD800) << 10) | ((std::uint32_t)SrcData2[x] - 0xDC00)) + 0x010000;
-							if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
+							if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x + 1;
 						}
 					}
 				}
@@ -217,7 +218,7 @@ namespace CubicleSoft
 				{
 					TempCP = SrcData2[x];
 
-					if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
+					if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x + 1;
 				}
 			}
 		}
-- 
2.43.0


From 4ac7aad2380ce4f98c504f3fdd078b48cd92839d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:35 +0000
Subject: [PATCH 35/76] fix: conversion from UTF-16 dropped the character after
 an unpaired surrogate

---
 utf8/utf8_util.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 0f22827..5c05c30 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -200,10 +200,9 @@ namespace CubicleSoft
 					}
 					else
 					{
-						x++;
-
-						if (x < SrcDataSize && SrcData2[x] >= 0xDC00 && SrcData2[x] <= 0xDFFF)
+						if (x + 1 < SrcDataSize && SrcData2[x + 1] >= 0xDC00 && SrcData2[x + 1] <= 0xDFFF)
 						{
+							x++;
 							TempCP = (((TempCP - 0xD800) << 10) | ((std::uint32_t)SrcData2[x] - 0xDC00)) + 0x010000;
 							if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x + 1;
 						}
-- 
2.43.0


From 962aca28fbd7e18e343df21c2cda8b93e1f6223b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:36 +0000
Subject: [PATCH 36/76] fix: Unicode conversion accepted overlong UTF-8, such
 as a hidden NUL

---
 utf8/utf8_util.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 5c05c30..8d82318 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -165,19 +165,19 @@ namespace CubicleSoft
 						x++;
 						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
-					else if (x + 1 < SrcDataSize && (TempCP & 0xE0) == 0xC0 && (SrcData2[x + 1] & 0xC0) == 0x80)
+					else if (x + 1 < SrcDataSize && (TempCP & 0xE0) == 0xC0 && TempCP >= 0xC2 && (SrcData2[x + 1] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x1F) << 6) | ((std::uint32_t)SrcData2[x + 1] & 0x3F));
 						x += 2;
 						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
-					else if (x + 2 < SrcDataSize && (TempCP & 0xF0) == 0xE0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80)
+					else if (x + 2 < SrcDataSize && (TempCP & 0xF0) == 0xE0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (TempCP != 0xE0 || SrcData2[x + 1] >= 0xA0) && (SrcData2[x + 2] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x0F) << 12) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 2] & 0x3F));
 						x += 3;
 						if (AppendUTF8CodePoint(TempCP, DestData, DestDataSize, y) && LastPos != NULL)  *LastPos = x;
 					}
-					else if (x + 3 < SrcDataSize && (TempCP & 0xF8) == 0xF0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (SrcData2[x + 2] & 0xC0) == 0x80 && (SrcData2[x + 3] & 0xC0) == 0x80)
+					else if (x + 3 < SrcDataSize && (TempCP & 0xF8) == 0xF0 && (SrcData2[x + 1] & 0xC0) == 0x80 && (TempCP != 0xF0 || SrcData2[x + 1] >= 0x90) && (SrcData2[x + 2] & 0xC0) == 0x80 && (SrcData2[x + 3] & 0xC0) == 0x80)
 					{
 						TempCP = (((TempCP & 0x07) << 18) | (((std::uint32_t)SrcData2[x + 1] & 0x3F) << 12) | (((std::uint32_t)SrcData2[x + 2] & 0x3F) << 6) | ((std::uint32_t)SrcData2[x + 3] & 0x3F));
 						x += 4;
@@ -289,19 +289,19 @@ namespace CubicleSoft
 					AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y);
 					x++;
 				}
-				else if (x + 1 < SrcDataSize && (TempCP & 0xE0) == 0xC0 && (SrcData[x + 1] & 0xC0) == 0x80)
+				else if (x + 1 < SrcDataSize && (TempCP & 0xE0) == 0xC0 && TempCP >= 0xC2 && (SrcData[x + 1] & 0xC0) == 0x80)
 				{
 					TempCP = (((TempCP & 0x1F) << 6) | ((std::uint32_t)SrcData[x + 1] & 0x3F));
 					AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y);
 					x += 2;
 				}
-				else if (x + 2 < SrcDataSize && (TempCP & 0xF0) == 0xE0 && (SrcData[x + 1] & 0xC0) == 0x80 && (SrcData[x + 2] & 0xC0) == 0x80)
+				else if (x + 2 < SrcDataSize && (TempCP & 0xF0) == 0xE0 && (SrcData[x + 1] & 0xC0) == 0x80 && (TempCP != 0xE0 || SrcData[x + 1] >= 0xA0) && (SrcData[x + 2] & 0xC0) == 0x80)
 				{
 					TempCP = (((TempCP & 0x0F) << 12) | (((std::uint32_t)SrcData[x + 1] & 0x3F) << 6) | ((std::uint32_t)SrcData[x + 2] & 0x3F));
 					AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y);
 					x += 3;
 				}
-				else if (x + 3 < SrcDataSize && (TempCP & 0xF8) == 0xF0 && (SrcData[x + 1] & 0xC0) == 0x80 && (SrcData[x + 2] & 0xC0) == 0x80 && (SrcData[x + 3] & 0xC0) == 0x80)
+				else if (x + 3 < SrcDataSize && (TempCP & 0xF8) == 0xF0 && (SrcData[x + 1] & 0xC0) == 0x80 && (TempCP != 0xF0 || SrcData[x + 1] >= 0x90) && (SrcData[x + 2] & 0xC0) == 0x80 && (SrcData[x + 3] & 0xC0) == 0x80)
 				{
 					TempCP = (((TempCP & 0x07) << 18) | (((std::uint32_t)SrcData[x + 1] & 0x3F) << 12) | (((std::uint32_t)SrcData[x + 2] & 0x3F) << 6) | ((std::uint32_t)SrcData[x + 3] & 0x3F));
 					AppendUTFCodePoint(TempCP, DestData, DestDataSize, DestWidth, y);
-- 
2.43.0


From 41afaddd0cd1e3f79606a4bf6ce7b7c010217ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:39 +0000
Subject: [PATCH 37/76] fix: UTF-8 scanning returned lead bytes instead of code
 points

---
 utf8/utf8_util.cpp | 53 ++++++++++++++++++++++++++++++----------------
 utf8/utf8_util.h   |  2 ++
 2 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 8d82318..2abd9f8 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -351,6 +351,36 @@ namespace CubicleSoft
 			return false;
 		}
 
+		size_t Util::DecodeUTF8CodePoint(std::uint32_t &ResultCP, const std::uint8_t *Data, size_t Size)
+		{
+			size_t Len = 0;
+
+			ResultCP = (Size ? Data[0] : 0);
+			if (ResultCP == 0)  return 0;
+
+			if (ResultCP <= 0x7F)  return 1;
+
+			if (Size > 1 && (ResultCP & 0xE0) == 0xC0 && (Data[1] & 0xC0) == 0x80)
+			{
+				ResultCP = (((ResultCP & 0x1F) << 6) | ((std::uint32_t)Data[1] & 0x3F));
+				if (ResultCP > 0x7F)  Len = 2;
+			}
+			else if (Size > 2 && (ResultCP & 0xF0) == 0xE0 && (Data[1] & 0xC0) == 0x80 && (Data[2] & 0xC0) == 0x80)
+			{
+				ResultCP = (((ResultCP & 0x0F) << 12) | (((std::uint32_t)Data[1] & 0x3F) << 6) | ((std::uint32_t)Data[2] & 0x3F));
+				if (ResultCP > 0x07FF && (ResultCP < 0xD800 || ResultCP > 0xDFFF))  Len = 3;
+			}
+			else if (Size > 3 && (ResultCP & 0xF8) == 0xF0 && (Data[1] & 0xC0) == 0x80 && (Data[2] & 0xC0) == 0x80 && (Data[3] & 0xC0) == 0x80)
+			{
+				ResultCP = (((ResultCP & 0x07) << 18) | (((std::uint32_t)Data[1] & 0x3F) << 12) | (((std::uint32_t)Data[2] & 0x3F) << 6) | ((std::uint32_t)Data[3] & 0x3F));
+				if (ResultCP > 0xFFFF && ResultCP <= 0x10FFFF)  Len = 4;
+			}
+
+			if (!Len)  ResultCP = 0;
+
+			return Len;
+		}
+
 		bool Util::NextCodePoint(std::uint32_t &ResultCP, std::uint32_t &NextCP, const char *Str, size_t &Pos, size_t &Size, bool &HasCombiningCP)
 		{
 			const std::uint8_t *Str2 = (const std::uint8_t *)Str;
@@ -365,30 +395,17 @@ namespace CubicleSoft
 				Size = ::strlen(Str);
 				HasCombiningCP = false;
 
-				ResultCP = Str2[0];
-				if (ResultCP == 0)  return false;
-
-				if (ResultCP <= 0x7F)  Pos++;
-				else if (Pos + 1 < Size && (ResultCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)  Pos += 2;
-				else if (Pos + 2 < Size && (ResultCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)  Pos += 3;
-				else if (Pos + 3 < Size && (ResultCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)  Pos += 4;
-				else  return false;
+				size_t FirstSize = DecodeUTF8CodePoint(ResultCP, Str2, Size);
+				if (!FirstSize)  return false;
 
 				// First character can't be a combining code point.
 				if ((ResultCP >= 0x0300 && ResultCP <= 0x036F) || (ResultCP >= 0x1DC0 && ResultCP <= 0x1DFF) || (ResultCP >= 0x20D0 && ResultCP <= 0x20FF) || (ResultCP >= 0xFE20 && ResultCP <= 0xFE2F))  return false;
-			}
-
-			NextCP = Str2[Pos];
 
-			if (NextCP != 0)
-			{
-				if (NextCP <= 0x7F)  Pos++;
-				else if (Pos + 1 < Size && (NextCP & 0xE0) == 0xC0 && (Str2[Pos + 1] & 0xC0) == 0x80)  Pos += 2;
-				else if (Pos + 2 < Size && (NextCP & 0xF0) == 0xE0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80)  Pos += 3;
-				else if (Pos + 3 < Size && (NextCP & 0xF8) == 0xF0 && (Str2[Pos + 1] & 0xC0) == 0x80 && (Str2[Pos + 2] & 0xC0) == 0x80 && (Str2[Pos + 3] & 0xC0) == 0x80)  Pos += 4;
-				else  NextCP = 0;
+				Pos = FirstSize;
 			}
 
+			Pos += DecodeUTF8CodePoint(NextCP, Str2 + Pos, Size - Pos);
+
 			HasCombiningCP = ((NextCP >= 0x0300 && NextCP <= 0x036F) || (NextCP >= 0x1DC0 && NextCP <= 0x1DFF) || (NextCP >= 0x20D0 && NextCP <= 0x20FF) || (NextCP >= 0xFE20 && NextCP <= 0xFE2F));
 
 			return true;
diff --git a/utf8/utf8_util.h b/utf8/utf8_util.h
index 8feea6f..61113ae 100644
--- a/utf8/utf8_util.h
+++ b/utf8/utf8_util.h
@@ -50,6 +50,8 @@ namespace CubicleSoft
 			static bool IsCombiningCodePoint(std::uint32_t CodePoint);
 
 		private:
+			// Returns the number of bytes used or 0 at the end of the string and on invalid characters.
+			static size_t DecodeUTF8CodePoint(std::uint32_t &ResultCP, const std::uint8_t *Data, size_t Size);
 			static bool AppendUTF8CodePoint(std::uint32_t TempCP, std::uint8_t *DestData, size_t &DestDataSize, size_t &MaxDestDataSize);
 			static bool AppendUTFCodePoint(std::uint32_t TempCP, void *DestData, size_t &DestDataSize, size_t DestWidth, size_t &MaxDestDataSize);
 		};
-- 
2.43.0


From 69b283781171c238f37f49127a5047eef2c3cd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:40 +0000
Subject: [PATCH 38/76] fix: finding a code point reported the position after
 the following character

---
 utf8/utf8_util.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_util.cpp b/utf8/utf8_util.cpp
index 2abd9f8..0c1a63d 100644
--- a/utf8/utf8_util.cpp
+++ b/utf8/utf8_util.cpp
@@ -331,21 +331,24 @@ namespace CubicleSoft
 
 		bool Util::FindCodePoint(size_t &ResultPos, std::uint32_t CodePoint, const char *Str, bool AllowCombiningCP)
 		{
-			size_t x, y;
+			size_t x, y, CurrPos;
 			std::uint32_t ResultCP, NextCP;
 			bool HasCombiningCP;
 
 			if (!AllowCombiningCP && IsCombiningCodePoint(CodePoint))  return false;
 
 			x = 0;
+			CurrPos = 0;
 			while (NextCodePoint(ResultCP, NextCP, Str, x, y, HasCombiningCP))
 			{
 				if (ResultCP == CodePoint && (AllowCombiningCP || !HasCombiningCP))
 				{
-					ResultPos = x;
+					ResultPos = CurrPos;
 
 					return true;
 				}
+
+				CurrPos += (ResultCP <= 0x7F ? 1 : (ResultCP <= 0x07FF ? 2 : (ResultCP <= 0xFFFF ? 3 : 4)));
 			}
 
 			return false;
-- 
2.43.0


From 2d58d1d75f1af445f59bd870a2821ccc0766add1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:43 +0000
Subject: [PATCH 39/76] fix: variant strings cut off or split non-ASCII text
 set from wide characters

---
 utf8/utf8_mixed_var.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/utf8/utf8_mixed_var.h b/utf8/utf8_mixed_var.h
index 9227fac..638e720 100644
--- a/utf8/utf8_mixed_var.h
+++ b/utf8/utf8_mixed_var.h
@@ -30,9 +30,9 @@ namespace CubicleSoft
 			void SetUTF8(const WCHAR *src, size_t srcsize)
 			{
 				this->MxMode = MV_Str;
-				this->MxStrPos = sizeof(this->MxStr);
+				this->MxStrPos = sizeof(this->MxStr) - 1;
 				Util::ConvertToUTF8(src, srcsize, sizeof(WCHAR), (std::uint8_t *)this->MxStr, this->MxStrPos);
-				if (this->MxStrPos == sizeof(this->MxStr) || (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0'))  this->MxStrPos--;
+				if (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0')  this->MxStrPos--;
 				this->MxStr[this->MxStrPos] = '\0';
 			}
 
@@ -48,11 +48,9 @@ namespace CubicleSoft
 
 			void AppendUTF8(const WCHAR *src)
 			{
-				size_t srcsize = wcslen(src);
-				if (srcsize > sizeof(this->MxStr) - this->MxStrPos)  srcsize = sizeof(this->MxStr) - this->MxStrPos;
-				Util::ConvertToUTF8(src, srcsize, sizeof(WCHAR), (std::uint8_t *)this->MxStr + this->MxStrPos, srcsize);
-				this->MxStrPos += srcsize;
-				if (this->MxStrPos == sizeof(this->MxStr) || (this->MxStrPos && this->MxStr[this->MxStrPos - 1] == '\0'))  this->MxStrPos--;
+				size_t destsize = sizeof(this->MxStr) - 1 - this->MxStrPos;
+				Util::ConvertToUTF8(src, wcslen(src), sizeof(WCHAR), (std::uint8_t *)this->MxStr + this->MxStrPos, destsize);
+				this->MxStrPos += destsize;
 				this->MxStr[this->MxStrPos] = '\0';
 			}
 		};
-- 
2.43.0


From fce77418b5e8d0d05deb596ec626107591684fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:09 +0000
Subject: [PATCH 40/76] fix: JSON strings with a size were measured by their
 first character, overflowing the buffer

---
 json/json_serializer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 65db46b..40694bb 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -315,6 +315,7 @@ namespace CubicleSoft
 				}
 
 				Result++;
+				Val++;
 				Size--;
 			}
 
-- 
2.43.0


From 796f60834d2277a20b74f0e9a1a1e227ad991606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:10 +0000
Subject: [PATCH 41/76] fix: JSON strings lost their slashes when slashes are
 not escaped

---
 json/json_serializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 40694bb..6c6a4be 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -358,7 +358,7 @@ namespace CubicleSoft
 				{
 					case '"':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '"';  Val++;  break;
 					case '\\':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '\\';  Val++;  break;
-					case '/':  if (MxEscapeSlashes)  { MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/'; }  Val++;  break;
+					case '/':  if (MxEscapeSlashes)  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/';  Val++;  break;
 					case '\b':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'b';  Val++;  break;
 					case '\f':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'f';  Val++;  break;
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
@@ -382,7 +382,7 @@ namespace CubicleSoft
 				{
 					case '"':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '"';  Val++;  break;
 					case '\\':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '\\';  Val++;  break;
-					case '/':  if (MxEscapeSlashes)  { MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/'; }  Val++;  break;
+					case '/':  if (MxEscapeSlashes)  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = '/';  Val++;  break;
 					case '\b':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'b';  Val++;  break;
 					case '\f':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'f';  Val++;  break;
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
-- 
2.43.0


From 08780c086faee3c553cf8505e5a6d380cee53cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:13 +0000
Subject: [PATCH 42/76] fix: JSON strings contained raw control characters,
 which is not valid JSON

---
 json/json_serializer.cpp | 34 ++++++++++++++++++++++++++++++++--
 json/json_serializer.h   |  1 +
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 6c6a4be..7ad6912 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -275,6 +275,14 @@ namespace CubicleSoft
 
 						break;
 					}
+
+					default:
+					{
+						// Other control characters are stored as \u00XX.
+						if ((std::uint8_t)*Val < 0x20)  Result += 5;
+
+						break;
+					}
 				}
 
 				Result++;
@@ -312,6 +320,14 @@ namespace CubicleSoft
 
 						break;
 					}
+
+					default:
+					{
+						// Other control characters are stored as \u00XX.
+						if ((std::uint8_t)*Val < 0x20)  Result += 5;
+
+						break;
+					}
 				}
 
 				Result++;
@@ -364,7 +380,7 @@ namespace CubicleSoft
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
 					case '\r':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'r';  Val++;  break;
 					case '\t':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 't';  Val++;  break;
-					default:  MxBuffer[MxBufferPos++] = *Val++;  break;
+					default:  InternalAppendChar(*Val++);  break;
 				}
 			}
 
@@ -388,7 +404,7 @@ namespace CubicleSoft
 					case '\n':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'n';  Val++;  break;
 					case '\r':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 'r';  Val++;  break;
 					case '\t':  MxBuffer[MxBufferPos++] = '\\';  MxBuffer[MxBufferPos++] = 't';  Val++;  break;
-					default:  MxBuffer[MxBufferPos++] = *Val++;  break;
+					default:  InternalAppendChar(*Val++);  break;
 				}
 
 				Size--;
@@ -398,6 +414,20 @@ namespace CubicleSoft
 			MxBuffer[MxBufferPos] = '\0';
 		}
 
+		void Serializer::InternalAppendChar(char Val)
+		{
+			if ((std::uint8_t)Val >= 0x20)  MxBuffer[MxBufferPos++] = Val;
+			else
+			{
+				static const char HexMap[] = "0123456789abcdef";
+
+				memcpy(MxBuffer + MxBufferPos, "\\u00", 4);
+				MxBufferPos += 4;
+				MxBuffer[MxBufferPos++] = HexMap[(std::uint8_t)Val >> 4];
+				MxBuffer[MxBufferPos++] = HexMap[(std::uint8_t)Val & 0x0F];
+			}
+		}
+
 		// Swiped and slightly modified from Int::ToString().
 		bool Serializer::IntToString(char *Result, size_t Size, std::uint64_t Num)
 		{
diff --git a/json/json_serializer.h b/json/json_serializer.h
index f07ac85..d6f8a58 100644
--- a/json/json_serializer.h
+++ b/json/json_serializer.h
@@ -85,6 +85,7 @@ namespace CubicleSoft
 			bool InternalAppendNextPrefix(const char *Key, size_t ExtraSpace);
 			void InternalAppendStr(const char *Val);
 			void InternalAppendStr(const char *Val, size_t Size);
+			void InternalAppendChar(char Val);
 			static bool IntToString(char *Result, size_t Size, std::uint64_t Num);
 			static bool IntToString(char *Result, size_t Size, std::int64_t Num);
 
-- 
2.43.0


From 27d7977641685ace251270dd358f95fafe3a983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:14 +0000
Subject: [PATCH 43/76] fix: NaN and infinity were written as invalid JSON

---
 json/json_serializer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 7ad6912..8fcae42 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -171,6 +171,9 @@ namespace CubicleSoft
 
 		bool Serializer::AppendDouble(const char *Key, const double Val, const size_t Precision)
 		{
+			// JSON has no way to represent NaN and infinity.
+			if (!(Val - Val == 0.0))  return false;
+
 			char TempBuffer[100];
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
 			_snprintf_s(TempBuffer, sizeof(TempBuffer), _TRUNCATE, "%1.*g", Precision, Val);
-- 
2.43.0


From 485e8dd3bae0dfc757b8fefe843804e977b7f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:14 +0000
Subject: [PATCH 44/76] fix: JSON doubles of high precision lost their exponent

---
 json/json_serializer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 8fcae42..8813360 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -174,12 +174,14 @@ namespace CubicleSoft
 			// JSON has no way to represent NaN and infinity.
 			if (!(Val - Val == 0.0))  return false;
 
-			char TempBuffer[100];
+			// The longest exact double has 767 digits plus sign, leading zeros or decimal point, and exponent.
+			char TempBuffer[800];
+			const size_t MaxPrecision = 767;
 #if (defined(_WIN32) || defined(WIN32) || defined(_WIN64) || defined(WIN64)) && defined(_MSC_VER) && _MSC_VER < 1900
-			_snprintf_s(TempBuffer, sizeof(TempBuffer), _TRUNCATE, "%1.*g", Precision, Val);
+			_snprintf_s(TempBuffer, sizeof(TempBuffer), _TRUNCATE, "%1.*g", (int)(Precision < MaxPrecision ? Precision : MaxPrecision), Val);
 			TempBuffer[sizeof(TempBuffer) - 1] = '\0';
 #else
-			snprintf(TempBuffer, sizeof(TempBuffer), "%1.*g", (int)Precision, Val);
+			snprintf(TempBuffer, sizeof(TempBuffer), "%1.*g", (int)(Precision < MaxPrecision ? Precision : MaxPrecision), Val);
 #endif
 
 			size_t x = strlen(TempBuffer);
-- 
2.43.0


From b72a70192e721c81ae743bda2f11ce1e2f5f6fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:15 +0000
Subject: [PATCH 45/76] fix: an empty JSON buffer was taken for an endless one

---
 json/json_serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index 8813360..f75dea9 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -29,7 +29,7 @@ namespace CubicleSoft
 		{
 			MxBuffer = Buffer;
 			MxBufferPos = 0;
-			MxBufferSize = BufferSize - 1;
+			MxBufferSize = (BufferSize ? BufferSize - 1 : 0);
 		}
 
 		bool Serializer::StartObject(const char *Key)
-- 
2.43.0


From 6a38195bff4374306d20f86388411315aaee9984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:39 +0000
Subject: [PATCH 46/76] fix: file names with non-ASCII characters were refused

---
 utf8/utf8_file_dir.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 672d843..aa3d61e 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1382,7 +1382,7 @@ namespace CubicleSoft
 		bool File::GetPlatformFilename(char *Result, size_t ResultSize, const char *Filename, bool)
 		{
 			// Check for invalid characters in the path/filename.  Replace '\' with '/'.
-			char TempCP;
+			std::uint8_t TempCP;
 			size_t x, y = strlen(Filename);
 			if (y + 1 > ResultSize)  return false;
 			Util::ConvertToUTF8(Filename, y + 1, sizeof(char), (std::uint8_t *)Result, ResultSize);
@@ -1391,7 +1391,7 @@ namespace CubicleSoft
 			// Ignore combining code points since kernels are generally not fully UTF-8 aware.
 			for (x = 0; x < y; x++)
 			{
-				TempCP = Result[x];
+				TempCP = (std::uint8_t)Result[x];
 
 				if (TempCP < 0x20 || TempCP == 0x7F || TempCP == '*' || TempCP == '?' || TempCP == '\"' || TempCP == '<' || TempCP == '>' || TempCP == '|')  return false;
 				else if (TempCP == '\\')  Result[x] = '/';
-- 
2.43.0


From 4279e105b17ba869bc5b6e8170bb3bde901c2915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:40 +0000
Subject: [PATCH 47/76] fix: copied files were padded with garbage and failed
 copies reported success

---
 utf8/utf8_file_dir.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index aa3d61e..1f05917 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1598,16 +1598,17 @@ namespace CubicleSoft
 			if (!DestFile.Open(DestFilename2, O_WRONLY | O_CREAT, File::ShareNone, SrcStat.st_mode))  return false;
 
 			std::uint8_t Buffer[8192];
-			size_t y;
+			size_t y, y2;
 
 			// Copy the data.
-			while (SrcFile.Read(Buffer, 8192, y) && y)
+			do
 			{
-				DestFile.Write(Buffer, 8192, y);
-			}
+				if (!SrcFile.Read(Buffer, 8192, y))  return false;
+				if (y && (!DestFile.Write(Buffer, y, y2) || y2 != y))  return false;
+			} while (y);
 
 			// Truncate the file to the current point.
-			if (::ftruncate(DestFile.MxFile, (off_t)DestFile.MxCurrPos) == 0)  {}
+			if (::ftruncate(DestFile.MxFile, (off_t)DestFile.MxCurrPos) < 0)  return false;
 
 			DestFile.Close();
 			SrcFile.Close();
-- 
2.43.0


From 9a0321fc4b58e5a3d8fc5c3a6fc10778f5171471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:41 +0000
Subject: [PATCH 48/76] fix: opening a file locked by others left it open, and
 truncated it all the same

---
 utf8/utf8_file_dir.cpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 1f05917..71f7f93 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1246,6 +1246,10 @@ namespace CubicleSoft
 			Flags |= O_CLOEXEC;
 #endif
 
+			// Don't touch the contents of an existing file before knowing that it may be shared.
+			bool Truncate = (MxWrite && (Flags & O_TRUNC));
+			if (Truncate)  Flags &= ~O_TRUNC;
+
 			MxFile = ::open(Filename2, Flags, Mode & 0777);
 			if (MxFile < 0)
 			{
@@ -1259,17 +1263,40 @@ namespace CubicleSoft
 			// Closest to Windows support is to just lock exclusively for ShareRead and ShareWrite.
 			if (ShareFlag == ShareNone || ShareFlag == ShareRead || ShareFlag == ShareWrite)
 			{
-				if (::flock(MxFile, LOCK_EX | LOCK_NB) < 0)  return false;
+				if (::flock(MxFile, LOCK_EX | LOCK_NB) < 0)
+				{
+					Close();
+
+					return false;
+				}
 
 				MxLocked = true;
 			}
 			else if (ShareFlag == ShareBoth)
 			{
-				if (::flock(MxFile, LOCK_SH | LOCK_NB) < 0)  return false;
+				if (::flock(MxFile, LOCK_SH | LOCK_NB) < 0)
+				{
+					Close();
+
+					return false;
+				}
 
 				MxLocked = true;
 			}
-			else  return false;
+			else
+			{
+				Close();
+
+				return false;
+			}
+
+			// Only regular files can be truncated.
+			if (Truncate && ::ftruncate(MxFile, 0) < 0 && errno != EINVAL)
+			{
+				Close();
+
+				return false;
+			}
 
 			off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
 			MxCurrPos = (Pos >= 0 ? (std::uint64_t)Pos : 0);
-- 
2.43.0


From 7dab0879e65dc16c7309ca11065ed741b218f13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:41 +0000
Subject: [PATCH 49/76] fix: an interrupted write wrote the wrong bytes and a
 failed one lost the position

---
 utf8/utf8_file_dir.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 71f7f93..381e719 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1363,16 +1363,17 @@ namespace CubicleSoft
 			do
 			{
 				BytesWritten = ::write(MxFile, Data, DataSize);
-				if (BytesWritten < 0 && errno != EINTR)  return false;
-
-				DataSize -= BytesWritten;
-				Data += BytesWritten;
-				DataWritten += BytesWritten;
-			} while (DataSize);
+				if (BytesWritten > 0)
+				{
+					DataSize -= BytesWritten;
+					Data += BytesWritten;
+					DataWritten += BytesWritten;
+				}
+			} while (DataSize && (BytesWritten >= 0 || errno == EINTR));
 			MxCurrPos += (std::uint64_t)DataWritten;
 			if (MxCurrPos > MxMaxPos)  MxMaxPos = MxCurrPos;
 
-			return true;
+			return (DataSize == 0);
 		}
 
 		bool File::Flush()
-- 
2.43.0


From 1c33b32c8dd5eda13f8db6bd6ebdb6edede2d785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:42 +0000
Subject: [PATCH 50/76] fix: a partial read ended lines and loading of files
 early

---
 utf8/utf8_file_dir.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 381e719..d5a731f 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1344,12 +1344,16 @@ namespace CubicleSoft
 			do
 			{
 				BytesRead = ::read(MxFile, Data, DataSize);
-			} while (BytesRead < 0 && errno == EINTR);
-			if (BytesRead < 0)  return false;
-			DataRead = (size_t)BytesRead;
-			MxCurrPos += (std::uint64_t)BytesRead;
+				if (BytesRead > 0)
+				{
+					DataSize -= BytesRead;
+					Data += BytesRead;
+					DataRead += BytesRead;
+				}
+			} while (DataSize && (BytesRead > 0 || (BytesRead < 0 && errno == EINTR)));
+			MxCurrPos += (std::uint64_t)DataRead;
 
-			return true;
+			return (BytesRead >= 0);
 		}
 
 		bool File::Write(const std::uint8_t *Data, size_t DataSize, size_t &DataWritten)
-- 
2.43.0


From 5f60cd8b183eec7d4ee02880ea7c344f65397fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:43 +0000
Subject: [PATCH 51/76] fix: seeking far forward wrapped around to the start

---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index d5a731f..c7a6a0b 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1315,7 +1315,7 @@ namespace CubicleSoft
 			{
 				case File::SeekStart:  TempPos = (Pos <= MxMaxPos ? Pos : MxMaxPos);  break;
 				case File::SeekEnd:  TempPos = (Pos <= MxMaxPos ? MxMaxPos - Pos : 0);  break;
-				case File::SeekForward:  TempPos = (MxCurrPos + Pos <= MxMaxPos ? MxCurrPos + Pos : MxMaxPos);  break;
+				case File::SeekForward:  TempPos = (MxCurrPos <= MxMaxPos && Pos <= MxMaxPos - MxCurrPos ? MxCurrPos + Pos : MxMaxPos);  break;
 				case File::SeekBackward:  TempPos = (MxCurrPos >= Pos ? MxCurrPos - Pos : 0);  break;
 				default:  TempPos = MxCurrPos;  break;
 			}
-- 
2.43.0


From 1dbd7e162ada33f9bfe33115cb7cd437d941e349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:44 +0000
Subject: [PATCH 52/76] fix: the position was wrong after appending

---
 utf8/utf8_file_dir.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index c7a6a0b..71e63e8 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1374,7 +1374,11 @@ namespace CubicleSoft
 					DataWritten += BytesWritten;
 				}
 			} while (DataSize && (BytesWritten >= 0 || errno == EINTR));
-			MxCurrPos += (std::uint64_t)DataWritten;
+
+			// Appending moves to the end of the file first.
+			off64_t Pos = ::lseek64(MxFile, 0, SEEK_CUR);
+			if (Pos >= 0)  MxCurrPos = (std::uint64_t)Pos;
+			else  MxCurrPos += (std::uint64_t)DataWritten;
 			if (MxCurrPos > MxMaxPos)  MxMaxPos = MxCurrPos;
 
 			return (DataSize == 0);
-- 
2.43.0


From 689a02f7192abbceeb3274fe45cbb6adf8618ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:45 +0000
Subject: [PATCH 53/76] fix: the target of a symbolic link was not terminated

---
 utf8/utf8_file_dir.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 71e63e8..c07cd1a 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1704,7 +1704,11 @@ namespace CubicleSoft
 		{
 			ssize_t Size = ::readlink(Filename, Result, ResultSize);
 
-			return (Size != -1 && (size_t)Size < ResultSize);
+			if (Size < 0 || (size_t)Size >= ResultSize)  return false;
+
+			Result[Size] = '\0';
+
+			return true;
 		}
 
 		// Only Windows supports Creation timestamp modification.
-- 
2.43.0


From 36ff901697f3b16d690ef1631c95ca66f19026ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:45 +0000
Subject: [PATCH 54/76] fix: reading a long line read past the end of its
 buffer, and one without a size hint never ended

---
 utf8/utf8_file_dir.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index c07cd1a..0de02dc 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1905,6 +1905,8 @@ namespace CubicleSoft
 
 			if (!IsOpen() || !MxRead)  return NULL;
 
+			if (!SizeHint)  SizeHint = 1024;
+
 			Result = NULL;
 			CurrSize = SizeHint;
 			do
@@ -1919,7 +1921,7 @@ namespace CubicleSoft
 					else
 					{
 						Result2 = new char[CurrSize + 1];
-						memcpy(Result2, Result, CurrSize);
+						memcpy(Result2, Result, CurrSize - SizeHint);
 						delete[] Result;
 						Result = Result2;
 					}
-- 
2.43.0


From 910b2e21625daec106657939937e755bc57d467b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:46 +0000
Subject: [PATCH 55/76] fix: a line that could not be read was returned cut off

---
 utf8/utf8_file_dir.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 0de02dc..b035e73 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1907,6 +1907,8 @@ namespace CubicleSoft
 
 			if (!SizeHint)  SizeHint = 1024;
 
+			std::uint64_t StartPos = MxCurrPos;
+
 			Result = NULL;
 			CurrSize = SizeHint;
 			do
@@ -1927,7 +1929,15 @@ namespace CubicleSoft
 					}
 				}
 
-				Read((std::uint8_t *)(Result + CurrSize - SizeHint), SizeHint, ReadSize);
+				if (!Read((std::uint8_t *)(Result + CurrSize - SizeHint), SizeHint, ReadSize))
+				{
+					// Allow the whole line to be read again.
+					Seek(File::SeekStart, StartPos);
+					if (AltRealloc == NULL)  delete[] Result;
+
+					return NULL;
+				}
+
 				if (ReadSize < SizeHint)
 				{
 					CurrSize -= (SizeHint - ReadSize);
-- 
2.43.0


From 550e0ec0ed2785dbcba2c0c99df7cc42a3e45e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:49 +0000
Subject: [PATCH 56/76] fix: changing the group of a file looked for a user
 instead

---
 utf8/utf8_file_dir.cpp | 6 +++---
 utf8/utf8_file_dir.h   | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index b035e73..f833905 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1611,10 +1611,10 @@ namespace CubicleSoft
 			char Filename2[8192];
 			if (!GetPlatformFilename(Filename2, 8192, Filename))  return false;
 
-			struct passwd *UserInfo = getpwnam(Group);
-			if (UserInfo == NULL)  return false;
+			struct group *GroupInfo = getgrnam(Group);
+			if (GroupInfo == NULL)  return false;
 
-			return (::chown(Filename2, -1, UserInfo->pw_gid) == 0);
+			return (::chown(Filename2, -1, GroupInfo->gr_gid) == 0);
 		}
 
 		bool File::Copy(const char *SrcFilename, const char *DestFilename)
diff --git a/utf8/utf8_file_dir.h b/utf8/utf8_file_dir.h
index 09640c3..19c8e29 100644
--- a/utf8/utf8_file_dir.h
+++ b/utf8/utf8_file_dir.h
@@ -25,6 +25,7 @@
 	#include <fcntl.h>
 	#include <unistd.h>
 	#include <pwd.h>
+	#include <grp.h>
 	#include <errno.h>
 	#include <utime.h>
 	#include <dirent.h>
-- 
2.43.0


From af458cbcf0c175f856d24cad8aa4856981cf4c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:50 +0000
Subject: [PATCH 57/76] fix: setting one timestamp of a file cut off the
 other's fraction

---
 utf8/utf8_file_dir.cpp | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index f833905..ea94954 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1717,35 +1717,26 @@ namespace CubicleSoft
 			char Filename2[8192];
 			if (!GetPlatformFilename(Filename2, 8192, Filename))  return false;
 
-			FileStat TempStat;
-
-			if (stat(Filename2, &TempStat) != 0)  return false;
-
-			struct timeval TempTimes[2];
+			struct timespec TempTimes[2];
 
-			if (LastAccess == NULL)
+			// A timestamp that isn't specified is left as it is.
+			TempTimes[0].tv_sec = 0;
+			TempTimes[0].tv_nsec = UTIME_OMIT;
+			if (LastAccess != NULL)
 			{
-				TempTimes[0].tv_sec = TempStat.st_atime;
-				TempTimes[0].tv_usec = 0;
-			}
-			else
-			{
-				TempTimes[0].tv_sec = (long)(*LastAccess / 1000000);
-				TempTimes[0].tv_usec = (long)(*LastAccess % 1000000);
+				TempTimes[0].tv_sec = (time_t)(*LastAccess / 1000000);
+				TempTimes[0].tv_nsec = (long)(*LastAccess % 1000000) * 1000;
 			}
 
-			if (LastUpdate == NULL)
-			{
-				TempTimes[1].tv_sec = TempStat.st_mtime;
-				TempTimes[1].tv_usec = 0;
-			}
-			else
+			TempTimes[1].tv_sec = 0;
+			TempTimes[1].tv_nsec = UTIME_OMIT;
+			if (LastUpdate != NULL)
 			{
-				TempTimes[1].tv_sec = (long)(*LastUpdate / 1000000);
-				TempTimes[1].tv_usec = (long)(*LastUpdate % 1000000);
+				TempTimes[1].tv_sec = (time_t)(*LastUpdate / 1000000);
+				TempTimes[1].tv_nsec = (long)(*LastUpdate % 1000000) * 1000;
 			}
 
-			return (utimes(Filename2, TempTimes) == 0);
+			return (utimensat(AT_FDCWD, Filename2, TempTimes, 0) == 0);
 		}
 
 
-- 
2.43.0


From 7dce2615bdcf240dbf60cc358895234f6ce7a7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:51 +0000
Subject: [PATCH 58/76] fix: paths starting with . or .. were not resolved

---
 utf8/utf8_file_dir.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index ea94954..3aaa644 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1461,7 +1461,10 @@ namespace CubicleSoft
 		{
 			char Filename2[8192], Filename3[8192];
 
-			if (!GetPlatformFilename(Filename3, 8192, Filename))  return false;
+			// A leading path separator allows './' and '../' at the start to be found.
+			Filename3[0] = '/';
+			if (!GetPlatformFilename(Filename3 + 1, 8191, Filename))  return false;
+			bool Absolute = (Filename3[1] == '/');
 
 			// Replace '/./' with '/'.
 			size_t x, x2, y = strlen(Filename3);
@@ -1515,7 +1518,7 @@ namespace CubicleSoft
 			}
 
 			GetPlatformFilenameInfo(FileInfo2, Filename2);
-			if (Filename3[FileInfo3.StartPath] == '/')  FileInfo2.Length = FileInfo2.StartPath;
+			if (Absolute)  FileInfo2.Length = FileInfo2.StartPath;
 
 			// Make sure the string always starts with a path separator.
 			if (FileInfo2.Length >= 8191)  return false;
-- 
2.43.0


From 99b265b19f3e67b21087c120e7e3ee10a7598bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:11:51 +0000
Subject: [PATCH 59/76] fix: an absolute path that did not fit could be cut off
 at a directory

---
 utf8/utf8_file_dir.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 3aaa644..2e97f64 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1551,6 +1551,7 @@ namespace CubicleSoft
 
 				Result[x2++] = Filename2[x];
 			}
+			if (x < FileInfo2.Length)  return false;
 			if (TrailingSlash && x2 && Result[x2 - 1] != '/' && x2 < ResultSize)  Result[x2++] = '/';
 			if (!TrailingSlash && x2 && Result[x2 - 1] == '/')  x2--;
 			if (x2 >= ResultSize)  return false;
-- 
2.43.0


From c244502df7da858fc2558e7cdd83c7cca2b7bef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:05 +0000
Subject: [PATCH 60/76] fix: a free read/write lock was refused when the clock
 ticked during the attempt

---
 sync/sync_readwritelock.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sync/sync_readwritelock.cpp b/sync/sync_readwritelock.cpp
index 65206cc..3e83841 100644
--- a/sync/sync_readwritelock.cpp
+++ b/sync/sync_readwritelock.cpp
@@ -80,7 +80,7 @@ namespace CubicleSoft
 
 			// Acquire the semaphore mutex.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRSemMutex, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
+			if (::WaitForSingleObject(MxWinRSemMutex, (Wait < CurrTime - StartTime ? 0 : Wait - (DWORD)(CurrTime - StartTime))) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
 
@@ -89,7 +89,7 @@ namespace CubicleSoft
 
 			// Acquire the semaphore.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRSemaphore, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
+			if (::WaitForSingleObject(MxWinRSemaphore, (Wait < CurrTime - StartTime ? 0 : Wait - (DWORD)(CurrTime - StartTime))) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinRSemMutex, 1, NULL);
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
@@ -129,7 +129,7 @@ namespace CubicleSoft
 
 			// Wait for readers to reach zero.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || ::WaitForSingleObject(MxWinRWaitEvent, Wait - (DWORD)(CurrTime - StartTime)) != WAIT_OBJECT_0)
+			if (::WaitForSingleObject(MxWinRWaitEvent, (Wait < CurrTime - StartTime ? 0 : Wait - (DWORD)(CurrTime - StartTime))) != WAIT_OBJECT_0)
 			{
 				::ReleaseSemaphore(MxWinWWaitMutex, 1, NULL);
 
@@ -269,7 +269,7 @@ namespace CubicleSoft
 
 			// Acquire the counter mutex.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || !Util::WaitForUnixSemaphore(MxPthreadRCountMutex, Wait - (CurrTime - StartTime)))
+			if (!Util::WaitForUnixSemaphore(MxPthreadRCountMutex, (Wait < CurrTime - StartTime ? 0 : Wait - (CurrTime - StartTime))))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
 
@@ -309,7 +309,7 @@ namespace CubicleSoft
 
 			// Wait for readers to reach zero.
 			CurrTime = (Wait == INFINITE ? 0 : Util::GetUnixMicrosecondTime() / 1000);
-			if (Wait < CurrTime - StartTime || !Util::WaitForUnixEvent(MxPthreadRWaitEvent, Wait - (CurrTime - StartTime)))
+			if (!Util::WaitForUnixEvent(MxPthreadRWaitEvent, (Wait < CurrTime - StartTime ? 0 : Wait - (CurrTime - StartTime))))
 			{
 				Util::ReleaseUnixSemaphore(MxPthreadWWaitMutex, NULL);
 
-- 
2.43.0


From ed89a8033529e332fb43e9274285c7f2749ecda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:05 +0000
Subject: [PATCH 61/76] fix: .. in a base directory could be taken for a
 directory name

---
 utf8/utf8_file_dir.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 2e97f64..e527804 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1507,6 +1507,9 @@ namespace CubicleSoft
 
 				// Require the base directory to be absolute.
 				if (Filename2[0] != '/')  return false;
+
+				// Resolve '.' and '..' in the base directory.
+				if (strcmp(Filename2, "/") && !GetAbsoluteFilename(Filename2, 8192, "/", Filename2, true))  return false;
 			}
 
 			y = strlen(Filename2);
-- 
2.43.0


From 6a476c995590996cc44a92e4100d606ed6cd1828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:06 +0000
Subject: [PATCH 62/76] fix: the absolute path of the root directory was empty

---
 utf8/utf8_file_dir.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index e527804..5d73d7b 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1556,7 +1556,7 @@ namespace CubicleSoft
 			}
 			if (x < FileInfo2.Length)  return false;
 			if (TrailingSlash && x2 && Result[x2 - 1] != '/' && x2 < ResultSize)  Result[x2++] = '/';
-			if (!TrailingSlash && x2 && Result[x2 - 1] == '/')  x2--;
+			if (!TrailingSlash && x2 > 1 && Result[x2 - 1] == '/')  x2--;
 			if (x2 >= ResultSize)  return false;
 			Result[x2] = '\0';
 
@@ -1838,6 +1838,9 @@ namespace CubicleSoft
 
 			if (!File::GetAbsoluteFilename(Dirname2, 8192, NULL, Dirname, false))  return false;
 
+			// The root directory can't be removed.
+			if (!strcmp(Dirname2, "/"))  return false;
+
 			if (Recursive)
 			{
 				// Don't traverse symlinks.
-- 
2.43.0


From 74e754d024e4f5f693c4da7e65dfe1b1a890274b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:06 +0000
Subject: [PATCH 63/76] fix: removing a directory tree left directories with
 unusual names behind

---
 utf8/utf8_file_dir.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 5d73d7b..b9bdc32 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1858,7 +1858,9 @@ namespace CubicleSoft
 			File::FileStat TempStat;
 			Dir TempDir;
 
-			if (TempDir.Open(Dirname))
+			// The name came from the system, so it must be used as it is.
+			TempDir.MxDir = ::opendir(Dirname);
+			if (TempDir.MxDir != NULL)
 			{
 				Dirname[Size] = '/';
 
-- 
2.43.0


From 72fc755605652a702bc94b17c55f7f95ac344d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:07 +0000
Subject: [PATCH 64/76] fix: moving a file reported success when the source
 could not be removed

---
 utf8/utf8_file_dir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index b9bdc32..9822ded 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1680,7 +1680,7 @@ namespace CubicleSoft
 			if (!Result)
 			{
 				Result = File::Copy(SrcFilename2, DestFilename2);
-				if (Result)  ::unlink(SrcFilename2);
+				if (Result)  Result = (::unlink(SrcFilename2) == 0);
 			}
 
 			return Result;
-- 
2.43.0


From af869a86e98eaf46a27a2e6e93307bf081e8a073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:46 +0000
Subject: [PATCH 65/76] fix: random bytes looped forever when the source
 failed, and discarded partial reads

---
 security/security_csprng.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/security/security_csprng.cpp b/security/security_csprng.cpp
index 10f2e0c..ad4a1a6 100644
--- a/security/security_csprng.cpp
+++ b/security/security_csprng.cpp
@@ -49,15 +49,19 @@ namespace CubicleSoft
 
 			ssize_t BytesRead;
 
-			do
+			// The source may deliver less than was asked for.
+			while (Size)
 			{
 				do
 				{
 					BytesRead = read(MxURandom, Result, Size);
 				} while (BytesRead < 0 && errno == EINTR);
-			} while (BytesRead != (ssize_t)Size);
 
-			if (BytesRead < 0)  return false;
+				if (BytesRead <= 0)  return false;
+
+				Result += BytesRead;
+				Size -= (size_t)BytesRead;
+			}
 
 			return true;
 		}
-- 
2.43.0


From 3ea2a036facef2ba204ee811af173275c7cee1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:50 +0000
Subject: [PATCH 66/76] fix: calling a library function without a result always
 failed

---
 templates/shared_lib_util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/templates/shared_lib_util.h b/templates/shared_lib_util.h
index 2a19779..3df905a 100644
--- a/templates/shared_lib_util.h
+++ b/templates/shared_lib_util.h
@@ -22,7 +22,7 @@ bool CUBICLESOFT_SHARED_LIBRARY_PREFIX_VOID(FunctionUtil &Func, Args... FuncArgs
 {
 	FARPROC FuncAddressPtr;
 
-	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL || (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
+	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL && (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
 
 	(*((void (CUBICLESOFT_SHARED_LIBRARY_CALLCONV *)(Args...))FuncAddressPtr))(FuncArgs...);
 
@@ -84,7 +84,7 @@ bool CUBICLESOFT_SHARED_LIBRARY_PREFIX_VOID(FunctionUtil &Func, Args... FuncArgs
 {
 	void *FuncAddressPtr;
 
-	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL || (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
+	if ((FuncAddressPtr = Func.GetFuncPtr()) == NULL && (FuncAddressPtr = Func.LoadFuncPtr()) == NULL)  return false;
 
 	(*((void (CUBICLESOFT_SHARED_LIBRARY_CALLCONV *)(Args...))FuncAddressPtr))(FuncArgs...);
 
-- 
2.43.0


From e964b917d0aa9e5fa5591eb55e86c2b5a7ae723d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:50 +0000
Subject: [PATCH 67/76] fix: storage directories overflowed a buffer one byte
 too small

---
 utf8/utf8_appinfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 878a5f8..95c27d8 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -184,7 +184,7 @@ namespace CubicleSoft
 			if (HomeDir == NULL)  HomeDir = getpwuid(getuid())->pw_dir;
 			if (HomeDir == NULL)  return false;
 
-			if (z2 < strlen(HomeDir))  return false;
+			if (z2 <= strlen(HomeDir))  return false;
 
 			strcpy(Buffer, HomeDir);
 			size_t z = strlen(HomeDir);
@@ -198,7 +198,7 @@ namespace CubicleSoft
 			BufferSize = 0;
 			if (z2)  Buffer[0] = '\0';
 
-			if (z2 < 5)  return false;
+			if (z2 < 6)  return false;
 
 			strcpy(Buffer, "/tmp/");
 			size_t z = 5;
-- 
2.43.0


From fe710e173f849f443e93d7b2c1b71a078d65db7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:50 +0000
Subject: [PATCH 68/76] fix: an empty home directory read before the buffer,
 and a user without an entry crashed

---
 utf8/utf8_appinfo.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 95c27d8..fd8204e 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -181,8 +181,12 @@ namespace CubicleSoft
 			if (z2)  Buffer[0] = '\0';
 
 			const char *HomeDir = getenv("HOME");
-			if (HomeDir == NULL)  HomeDir = getpwuid(getuid())->pw_dir;
-			if (HomeDir == NULL)  return false;
+			if (HomeDir == NULL || !*HomeDir)
+			{
+				struct passwd *UserInfo = getpwuid(getuid());
+				HomeDir = (UserInfo == NULL ? NULL : UserInfo->pw_dir);
+			}
+			if (HomeDir == NULL || !*HomeDir)  return false;
 
 			if (z2 <= strlen(HomeDir))  return false;
 
-- 
2.43.0


From 70667c9010687e9f79edbc1d3a57167a38deee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:51 +0000
Subject: [PATCH 69/76] fix: an executable's name that did not fit could be cut
 off at a directory

---
 utf8/utf8_appinfo.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index fd8204e..95e7e78 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -131,7 +131,10 @@ namespace CubicleSoft
 			char *Filename;
 			if (z > 0)
 			{
-				if ((size_t)z < z2)  Buffer[z] = '\0';
+				// The name may have been cut off.
+				if ((size_t)z >= z2)  return false;
+
+				Buffer[z] = '\0';
 
 				Filename = realpath(Buffer, NULL);
 			}
-- 
2.43.0


From a337d8fd42d1e13b6871c28786c76f8dabdc99ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:51 +0000
Subject: [PATCH 70/76] fix: a storage directory that exactly fills the buffer
 was refused

---
 utf8/utf8_appinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utf8/utf8_appinfo.cpp b/utf8/utf8_appinfo.cpp
index 95e7e78..5d8d693 100644
--- a/utf8/utf8_appinfo.cpp
+++ b/utf8/utf8_appinfo.cpp
@@ -228,8 +228,8 @@ namespace CubicleSoft
 
 				if (z < z2 && Buffer[z - 1] != '/')  Buffer[z++] = '/';
 			}
-			if (z < z2)  Buffer[z++] = '\0';
 			if (z == z2)  return false;
+			Buffer[z++] = '\0';
 			BufferSize = z;
 
 			return true;
-- 
2.43.0


From ca1d2b8e7480d023f7ec8221590f9a66447d7b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:15 +0000
Subject: [PATCH 71/76] fix: setting no timestamp of a missing file reported
 success

---
 utf8/utf8_file_dir.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utf8/utf8_file_dir.cpp b/utf8/utf8_file_dir.cpp
index 9822ded..64d2a73 100644
--- a/utf8/utf8_file_dir.cpp
+++ b/utf8/utf8_file_dir.cpp
@@ -1724,6 +1724,10 @@ namespace CubicleSoft
 			char Filename2[8192];
 			if (!GetPlatformFilename(Filename2, 8192, Filename))  return false;
 
+			FileStat TempStat;
+
+			if (stat(Filename2, &TempStat) != 0)  return false;
+
 			struct timespec TempTimes[2];
 
 			// A timestamp that isn't specified is left as it is.
-- 
2.43.0


From 4a20e5f7b1885ad8b49b83670a969e6feb0f7d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:56 +0000
Subject: [PATCH 72/76] fix: JSON numbers followed the locale's decimal point

---
 json/json_serializer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/json/json_serializer.cpp b/json/json_serializer.cpp
index f75dea9..2be77a2 100644
--- a/json/json_serializer.cpp
+++ b/json/json_serializer.cpp
@@ -5,6 +5,7 @@
 
 #include "json_serializer.h"
 #include <cstdio>
+#include <clocale>
 
 namespace CubicleSoft
 {
@@ -184,6 +185,16 @@ namespace CubicleSoft
 			snprintf(TempBuffer, sizeof(TempBuffer), "%1.*g", (int)(Precision < MaxPrecision ? Precision : MaxPrecision), Val);
 #endif
 
+			// The decimal point depends on the locale of the program.  JSON only allows a period.
+			const char *DecimalPoint = localeconv()->decimal_point;
+			char *Pos = (*DecimalPoint ? strstr(TempBuffer, DecimalPoint) : NULL);
+			if (Pos != NULL)
+			{
+				size_t y = strlen(DecimalPoint);
+				*Pos = '.';
+				memmove(Pos + 1, Pos + y, strlen(Pos + y) + 1);
+			}
+
 			size_t x = strlen(TempBuffer);
 			if (!InternalAppendNextPrefix(Key, x))  return false;
 
-- 
2.43.0


From 25781731ab202d6d43404652d3a52364c667687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:57 +0000
Subject: [PATCH 73/76] fix: shared memory sizes that differ by 4 GB shared one
 block

---
 sync/sync_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index f0a59f3..5316e8f 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -155,7 +155,7 @@ namespace CubicleSoft
 					}
 				}
 
-				sprintf(Nums, "-%u-%u-", (unsigned int)GetUnixSystemAlignmentSize(), (unsigned int)Size);
+				sprintf(Nums, "-%u-%llu-", (unsigned int)GetUnixSystemAlignmentSize(), (unsigned long long)Size);
 
 				y = strlen(Nums);
 				for (x = 0; x < y; x++)
-- 
2.43.0


From a90b884878108d15c12485cc6f3b4cca60b2309c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:57 +0000
Subject: [PATCH 74/76] fix: shared memory of an impossible size was created
 with a few bytes

---
 sync/sync_util.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index 5316e8f..dcb2679 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -126,6 +126,7 @@ namespace CubicleSoft
 			// First byte indicates initialization status (0 = completely uninitialized, 1 = first mutex initialized, 2 = ready).
 			// Next few bytes are a shared mutex object.
 			// Size bytes follow for whatever.
+			if (Size > (size_t)-1 - StartPos - GetUnixSystemAlignmentSize())  return -1;
 			Size += StartPos;
 			Size = AlignUnixSize(Size);
 
-- 
2.43.0


From 3425b5f5e2795e4c804c212bcf8f99474fe79928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:58 +0000
Subject: [PATCH 75/76] fix: a named object that could not be sized or mapped
 made later opens wait forever

---
 sync/sync_util.cpp | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/sync/sync_util.cpp b/sync/sync_util.cpp
index dcb2679..7d2fba6 100644
--- a/sync/sync_util.cpp
+++ b/sync/sync_util.cpp
@@ -79,6 +79,22 @@ namespace CubicleSoft
 	#endif
 		}
 
+		// Sets the size of a shared memory object.  Some platforms refuse to change the size of an object that has the right size already.
+		bool CSGX__SetSharedMemSize(int fp, size_t Size)
+		{
+			int Result;
+
+			do
+			{
+				Result = ftruncate(fp, Size);
+			} while (Result < 0 && errno == EINTR);
+
+			struct stat TempStat;
+			if (Result < 0 && (fstat(fp, &TempStat) < 0 || TempStat.st_size < 0 || (std::uint64_t)TempStat.st_size < (std::uint64_t)Size))  return false;
+
+			return true;
+		}
+
 		// POSIX pthreads.
 		ThreadIDType Util::GetCurrentThreadID()
 		{
@@ -221,13 +237,14 @@ namespace CubicleSoft
 				pthread_mutex_unlock(&MaskMutex);
 				if (fp > -1)
 				{
-					// Ignore platform errors (for now).
-					while (ftruncate(fp, Size) < 0 && errno == EINTR)
+					if (CSGX__SetSharedMemSize(fp, Size))  ResultMem = (char *)mmap(NULL, Size, PROT_READ | PROT_WRITE, MAP_SHARED, fp, 0);
+					if (ResultMem == NULL || ResultMem == MAP_FAILED)
 					{
-					}
+						ResultMem = NULL;
 
-					ResultMem = (char *)mmap(NULL, Size, PROT_READ | PROT_WRITE, MAP_SHARED, fp, 0);
-					if (ResultMem == MAP_FAILED)  ResultMem = NULL;
+						// Nobody will ever initialize this object.  Don't let others wait for that.
+						shm_unlink(Name2);
+					}
 					else
 					{
 						pthread_mutexattr_t MutexAttr;
@@ -255,13 +272,8 @@ namespace CubicleSoft
 					fp = shm_open(Name2, O_RDWR, 0666);
 					if (fp > -1)
 					{
-						// Ignore platform errors (for now).
-						while (ftruncate(fp, Size) < 0 && errno == EINTR)
-						{
-						}
-
-						ResultMem = (char *)mmap(NULL, Size, PROT_READ | PROT_WRITE, MAP_SHARED, fp, 0);
-						if (ResultMem == MAP_FAILED)  ResultMem = NULL;
+						if (CSGX__SetSharedMemSize(fp, Size))  ResultMem = (char *)mmap(NULL, Size, PROT_READ | PROT_WRITE, MAP_SHARED, fp, 0);
+						if (ResultMem == NULL || ResultMem == MAP_FAILED)  ResultMem = NULL;
 						else
 						{
 							// Wait until the space is fully initialized.
-- 
2.43.0


From 6b1f2115886acfa32fd4f08498bce17f2ece0e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:58 +0000
Subject: [PATCH 76/76] fix: a shared memory handle whose creation failed kept
 its old size

---
 sync/sync_sharedmem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sync/sync_sharedmem.cpp b/sync/sync_sharedmem.cpp
index a557dbe..e7af5c7 100644
--- a/sync/sync_sharedmem.cpp
+++ b/sync/sync_sharedmem.cpp
@@ -87,6 +87,7 @@ namespace CubicleSoft
 
 			MxMemInternal = NULL;
 			MxMem = NULL;
+			MxSize = 0;
 			MxFirst = false;
 
 			size_t Pos, TempSize = Size;
-- 
2.43.0

