From 2dd04f8589ddbe468051e71ed69fa7a484faefd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:51 +0000
Subject: [PATCH 01/19] fix: request and communicator hash tables no longer
 spin when no slot is empty

Probing stopped only at an empty slot. Deleted entries leave a tombstone, so
after enough insert/delete cycles no empty slot is left and looking up a key
that is not in the table (any ordinary request in MPI_Wait, MPI_Test, ...)
never returned; the 257th live entry could not be inserted either. Probe at
most once around and double the table when it is full.
---
 src/mpi/hash_table.c          | 52 +++++++++++++++++++++++++++++------
 src/mpi/hash_table_blocking.c | 52 +++++++++++++++++++++++++++++------
 2 files changed, 88 insertions(+), 16 deletions(-)

diff --git a/src/mpi/hash_table.c b/src/mpi/hash_table.c
index 7e132b0..e026df3 100644
--- a/src/mpi/hash_table.c
+++ b/src/mpi/hash_table.c
@@ -14,6 +14,7 @@ struct DataItem {
 
 static struct DataItem** hashArray;
 static struct DataItem* dummyItem;
+static int hashSize = SIZE;
 
 static int hashCode(MPI_Request *key) {
    unsigned char value = 0;
@@ -24,17 +25,41 @@ static int hashCode(MPI_Request *key) {
    return value;
 }
 
+/* all slots are occupied by live entries: move them to a table of twice the size */
+static void hashGrow() {
+   struct DataItem **oldArray = hashArray;
+   int oldSize = hashSize, hashIndex, i;
+   MPI_Request key;
+   hashSize *= 2;
+   hashArray = (struct DataItem**) malloc(hashSize*sizeof(struct DataItem*));
+   for (i = 0; i < hashSize; i++) {
+      hashArray[i] = NULL;
+   }
+   for (i = 0; i < oldSize; i++) {
+      key = oldArray[i]->key;
+      hashIndex = hashCode(&key);
+      while (hashArray[hashIndex] != NULL) {
+         ++hashIndex;
+         hashIndex %= hashSize;
+      }
+      hashArray[hashIndex] = oldArray[i];
+   }
+   free(oldArray);
+}
+
 int ext_mpi_hash_search(MPI_Request *key) {
    int hashIndex = hashCode(key);  
+   int probes = 0;
 
-   while(hashArray[hashIndex] != NULL) {
+   while(probes < hashSize && hashArray[hashIndex] != NULL) {
 
       if(hashArray[hashIndex]->key == *key)
          return hashArray[hashIndex]->data;
 
       ++hashIndex;
+      ++probes;
 
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }        
 
    return -1;
@@ -47,11 +72,19 @@ void ext_mpi_hash_insert(MPI_Request *key, int data) {
    item->key = *key;
 
    int hashIndex = hashCode(key);
+   int probes = 0;
 
    while(hashArray[hashIndex] != NULL && hashArray[hashIndex]->key != MPI_REQUEST_NULL) {
       ++hashIndex;
+      ++probes;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
+
+      if(probes == hashSize) {
+         hashGrow();
+         hashIndex = hashCode(key);
+         probes = 0;
+      }
    }
 	
    hashArray[hashIndex] = item;
@@ -59,8 +92,9 @@ void ext_mpi_hash_insert(MPI_Request *key, int data) {
 
 int ext_mpi_hash_delete(MPI_Request *key) {
    int hashIndex = hashCode(key);
+   int probes = 0;
 
-   while(hashArray[hashIndex] != NULL) {
+   while(probes < hashSize && hashArray[hashIndex] != NULL) {
 	
       if(hashArray[hashIndex]->key == *key) {
          int temp = hashArray[hashIndex]->data;
@@ -70,8 +104,9 @@ int ext_mpi_hash_delete(MPI_Request *key) {
       }
 		
       ++hashIndex;
+      ++probes;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }      
 	
    return -1;
@@ -79,8 +114,9 @@ int ext_mpi_hash_delete(MPI_Request *key) {
 
 int ext_mpi_hash_init(){
   int i;
-  hashArray = (struct DataItem**) malloc(SIZE*sizeof(struct DataItem*));
-  for (i=0; i<SIZE; i++){
+  hashSize = SIZE;
+  hashArray = (struct DataItem**) malloc(hashSize*sizeof(struct DataItem*));
+  for (i=0; i<hashSize; i++){
     hashArray[i] = NULL;
   }
   dummyItem = (struct DataItem*) malloc(sizeof(struct DataItem));
@@ -94,7 +130,7 @@ int ext_mpi_hash_init(){
 
 int ext_mpi_hash_done() {
   int i;
-  for (i = 0; i < SIZE; i++) {
+  for (i = 0; i < hashSize; i++) {
     if (hashArray[i] != dummyItem) {
       free(hashArray[i]);
     }
diff --git a/src/mpi/hash_table_blocking.c b/src/mpi/hash_table_blocking.c
index 520eb41..02fc651 100644
--- a/src/mpi/hash_table_blocking.c
+++ b/src/mpi/hash_table_blocking.c
@@ -14,6 +14,7 @@ struct DataItem {
 
 static struct DataItem** hashArray;
 static struct DataItem* dummyItem;
+static int hashSize = SIZE;
 
 static int hashCode(MPI_Comm *key) {
    unsigned char value = 0;
@@ -24,17 +25,41 @@ static int hashCode(MPI_Comm *key) {
    return value;
 }
 
+/* all slots are occupied by live entries: move them to a table of twice the size */
+static void hashGrow() {
+   struct DataItem **oldArray = hashArray;
+   int oldSize = hashSize, hashIndex, i;
+   MPI_Comm key;
+   hashSize *= 2;
+   hashArray = (struct DataItem**) malloc(hashSize*sizeof(struct DataItem*));
+   for (i = 0; i < hashSize; i++) {
+      hashArray[i] = NULL;
+   }
+   for (i = 0; i < oldSize; i++) {
+      key = oldArray[i]->key;
+      hashIndex = hashCode(&key);
+      while (hashArray[hashIndex] != NULL) {
+         ++hashIndex;
+         hashIndex %= hashSize;
+      }
+      hashArray[hashIndex] = oldArray[i];
+   }
+   free(oldArray);
+}
+
 int ext_mpi_hash_search_blocking(MPI_Comm *key) {
    int hashIndex = hashCode(key);  
+   int probes = 0;
 
-   while(hashArray[hashIndex] != NULL) {
+   while(probes < hashSize && hashArray[hashIndex] != NULL) {
 
       if(hashArray[hashIndex]->key == *key)
          return hashArray[hashIndex]->data;
 
       ++hashIndex;
+      ++probes;
 
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }        
 
    return -1;
@@ -47,11 +72,19 @@ void ext_mpi_hash_insert_blocking(MPI_Comm *key, int data) {
    item->key = *key;
 
    int hashIndex = hashCode(key);
+   int probes = 0;
 
    while(hashArray[hashIndex] != NULL && hashArray[hashIndex]->key != MPI_COMM_NULL) {
       ++hashIndex;
+      ++probes;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
+
+      if(probes == hashSize) {
+         hashGrow();
+         hashIndex = hashCode(key);
+         probes = 0;
+      }
    }
 	
    hashArray[hashIndex] = item;
@@ -59,8 +92,9 @@ void ext_mpi_hash_insert_blocking(MPI_Comm *key, int data) {
 
 int ext_mpi_hash_delete_blocking(MPI_Comm *key) {
    int hashIndex = hashCode(key);
+   int probes = 0;
 
-   while(hashArray[hashIndex] != NULL) {
+   while(probes < hashSize && hashArray[hashIndex] != NULL) {
 	
       if(hashArray[hashIndex]->key == *key) {
          int temp = hashArray[hashIndex]->data;
@@ -70,8 +104,9 @@ int ext_mpi_hash_delete_blocking(MPI_Comm *key) {
       }
 		
       ++hashIndex;
+      ++probes;
 		
-      hashIndex %= SIZE;
+      hashIndex %= hashSize;
    }      
 	
    return -1;
@@ -79,8 +114,9 @@ int ext_mpi_hash_delete_blocking(MPI_Comm *key) {
 
 int ext_mpi_hash_init_blocking(){
   int i;
-  hashArray = (struct DataItem**) malloc(SIZE*sizeof(struct DataItem*));
-  for (i=0; i<SIZE; i++){
+  hashSize = SIZE;
+  hashArray = (struct DataItem**) malloc(hashSize*sizeof(struct DataItem*));
+  for (i=0; i<hashSize; i++){
     hashArray[i] = NULL;
   }
   dummyItem = (struct DataItem*) malloc(sizeof(struct DataItem));
@@ -94,7 +130,7 @@ int ext_mpi_hash_init_blocking(){
 
 int ext_mpi_hash_done_blocking() {
   int i;
-  for (i = 0; i < SIZE; i++) {
+  for (i = 0; i < hashSize; i++) {
     if (hashArray[i] != dummyItem) {
       free(hashArray[i]);
     }
-- 
2.43.0


From f72a1e090c2c6fc4bb9604169e279e98e79193d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 02/19] fix: MPI_Testall with MPI_STATUSES_IGNORE reports
 incomplete requests

The pointer instead of the flag was set to zero, so the call reported
completion whenever the first request of the list was complete or not,
and the next incomplete request dereferenced the pointer.
---
 src/mpi/ext_mpi_interface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index 3195e2e..dd597ca 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -232,7 +232,7 @@ int MPI_Testall(int count, MPI_Request array_of_requests[], int *flag, MPI_Statu
       if (ret != MPI_SUCCESS){
         return ret;
       }
-      if (!lflag) flag=0;
+      if (!lflag) *flag=0;
     }
   }else{
     *flag = 1;
-- 
2.43.0


From 8791c3bc587a9b8cf77cdaa09061fd6cd90bfbf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 03/19] fix: MPI_Testsome reports no completed request when
 none is complete

The outcount was always one, with an index that had never been written.
MPI_Testany sets the index to MPI_UNDEFINED in the same case.
---
 src/mpi/ext_mpi_interface.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index dd597ca..ce705cd 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -253,6 +253,7 @@ int MPI_Testany(int count, MPI_Request array_of_requests[], int *indx, int *flag
     return PMPI_Testany(count, array_of_requests, indx, flag, status);
   }
   *flag = 0;
+  *indx = MPI_UNDEFINED;
   for (i=0; i<count; i++){
     ret = MPI_Test(&array_of_requests[i], &lflag, status);
     if (ret != MPI_SUCCESS){
@@ -268,16 +269,19 @@ int MPI_Testany(int count, MPI_Request array_of_requests[], int *indx, int *flag
 }
 
 int MPI_Testsome(int incount, MPI_Request array_of_requests[], int *outcount, int array_of_indices[], MPI_Status array_of_statuses[]){
-  int flag;
+  int flag, ret;
   if (!is_in_request_array(incount, array_of_requests)){
     return PMPI_Testsome(incount, array_of_requests, outcount, array_of_indices, array_of_statuses);
   }
-  *outcount = 1;
   if (array_of_statuses == MPI_STATUSES_IGNORE){
-    return MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, MPI_STATUS_IGNORE);
+    ret = MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, MPI_STATUS_IGNORE);
   }else{
-    return MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, &array_of_statuses[0]);
+    ret = MPI_Testany(incount, array_of_requests, &array_of_indices[0], &flag, &array_of_statuses[0]);
+  }
+  if (ret == MPI_SUCCESS){
+    *outcount = flag ? 1 : 0;
   }
+  return ret;
 }
 
 int MPI_Allgather_init(const void *sendbuf, int sendcount, MPI_Datatype sendtype, void *recvbuf, int recvcount, MPI_Datatype recvtype, MPI_Comm comm, MPI_Info info, MPI_Request *request){
-- 
2.43.0


From 189723a844fc19a1b7b46dfc84566d6e2f4dcf66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 04/19] fix: MPI_Startall starts accelerated requests

The call was not intercepted, so the placeholder receive that stands for
an accelerated request was started instead of the collective, and a later
MPI_Wait waited for a collective that nobody had started.
---
 src/mpi/ext_mpi_interface.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index ce705cd..ba364da 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -135,16 +135,6 @@ int MPI_Start(MPI_Request *request){
   }
 }
 
-int MPI_Wait(MPI_Request *request, MPI_Status *status){
-  int handle=ext_mpi_hash_search(request);
-  if (handle >= 0){
-    EXT_MPI_Wait(handle);
-    return MPI_SUCCESS;
-  }else{
-    return PMPI_Wait(request, status);
-  }
-}
-
 static int is_in_request_array(int count, MPI_Request array_of_requests[]){
   int i;
   for (i=0; i<count; i++){
@@ -155,6 +145,30 @@ static int is_in_request_array(int count, MPI_Request array_of_requests[]){
   return 0;
 }
 
+int MPI_Startall(int count, MPI_Request array_of_requests[]){
+  int ret, i;
+  if (!is_in_request_array(count, array_of_requests)){
+    return PMPI_Startall(count, array_of_requests);
+  }
+  for (i=0; i<count; i++){
+    ret = MPI_Start(&array_of_requests[i]);
+    if (ret != MPI_SUCCESS){
+      return ret;
+    }
+  }
+  return MPI_SUCCESS;
+}
+
+int MPI_Wait(MPI_Request *request, MPI_Status *status){
+  int handle=ext_mpi_hash_search(request);
+  if (handle >= 0){
+    EXT_MPI_Wait(handle);
+    return MPI_SUCCESS;
+  }else{
+    return PMPI_Wait(request, status);
+  }
+}
+
 int MPI_Waitall(int count, MPI_Request array_of_requests[], MPI_Status array_of_statuses[]){
   int ret, i;
   if (!is_in_request_array(count, array_of_requests)){
-- 
2.43.0


From 6facaa3361ff481670378a6260840ceb9dab363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:58 +0000
Subject: [PATCH 05/19] fix: blocking mode copes with communicators it does not
 hold

MPI_COMM_NULL (a rank that is not a member of the new communicator) was
set up like a communicator, the 101st communicator was registered behind
the end of comms_blocking, and freeing an unregistered communicator
finalised and cleared slot -1. Such communicators stay with plain MPI.
---
 src/mpi/ext_mpi_interface.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_interface.c b/src/mpi/ext_mpi_interface.c
index ba364da..185d3dc 100644
--- a/src/mpi/ext_mpi_interface.c
+++ b/src/mpi/ext_mpi_interface.c
@@ -448,7 +448,9 @@ int MPI_Allgather(const void *sendbuf, int sendcount, MPI_Datatype sendtype, voi
 
 static int add_comm_to_blocking(MPI_Comm *comm){
   int i = 0;
-  while (comms_blocking[i]) i++;
+  if (*comm == MPI_COMM_NULL) return 0;
+  while (i < sizeof(comms_blocking)/sizeof(int) && comms_blocking[i]) i++;
+  if (i >= sizeof(comms_blocking)/sizeof(int)) return 0;
   comms_blocking[i] = 1;
   ext_mpi_hash_insert_blocking(comm, i);
   EXT_MPI_Init_blocking_comm(*comm, i);
@@ -457,6 +459,7 @@ static int add_comm_to_blocking(MPI_Comm *comm){
 
 static int remove_comm_from_blocking(MPI_Comm *comm){
   int i = ext_mpi_hash_search_blocking(comm);
+  if (i < 0) return 0;
   EXT_MPI_Finalize_blocking_comm(i);
   ext_mpi_hash_delete_blocking(comm);
   comms_blocking[i] = 0;
-- 
2.43.0


From cf01cdb4e734a7d5eabf99bd218c63b29ef65e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:47 +0000
Subject: [PATCH 06/19] fix: non-blocking execution passes a barrier exactly
 when it has been reached

The *_barrier_test functions return 1 while a partner is missing, but the
executor took 0 for that: MPI_Test on a collective stayed for ever at a
barrier everybody had reached and blocked at one that somebody had not.
---
 src/mpi/ext_mpi_native_exec.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi/ext_mpi_native_exec.c b/src/mpi/ext_mpi_native_exec.c
index 6ea827e..86dc198 100644
--- a/src/mpi/ext_mpi_native_exec.c
+++ b/src/mpi/ext_mpi_native_exec.c
@@ -331,7 +331,7 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
                        header->socket_rank, header->num_cores);
       } else {
         *ip_exec = ip - 1;
-        if (!socket_barrier_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket,
+        if (socket_barrier_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket,
                                  header->socket_rank, header->num_cores)) {
           return 0;
         } else {
@@ -346,7 +346,7 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
                        header->socket_rank, header->num_sockets_per_node);
       } else {
         *ip_exec = ip - 1;
-        if (!node_barrier_test(header->barrier_shmem_node, header->barrier_counter_node,
+        if (node_barrier_test(header->barrier_shmem_node, header->barrier_counter_node,
                                  header->socket_rank, header->num_sockets_per_node)) {
           return 0;
         } else {
@@ -364,7 +364,7 @@ int ext_mpi_exec_native(char *ip, char **ip_exec, int active_wait) {
         socket_barrier_atomic_wait(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket, i1);
       } else {
         *ip_exec = ip - 1 - sizeof(int);
-        if (!socket_barrier_atomic_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket, i1)) {
+        if (socket_barrier_atomic_test(header->barrier_shmem_socket + header->barrier_shmem_size, header->barrier_counter_socket, i1)) {
           return 0;
         } else {
           socket_barrier_atomic_wait(header->barrier_shmem_socket + header->barrier_shmem_size, &header->barrier_counter_socket, i1);
-- 
2.43.0


From ce8986bc0ef66f57168f74bab203944763e27dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:50 +0000
Subject: [PATCH 07/19] fix: blocking executor: the list of receive addresses
 advances with every send

a send whose receiver lies at the start of the first shared segment (address 0
after normalisation) did not advance the list, so every later send of the
program was clipped like that one and could be longer than its receive
---
 src/mpi/ext_mpi_native_exec.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mpi/ext_mpi_native_exec.c b/src/mpi/ext_mpi_native_exec.c
index 86dc198..afdc136 100644
--- a/src/mpi/ext_mpi_native_exec.c
+++ b/src/mpi/ext_mpi_native_exec.c
@@ -772,10 +772,9 @@ int ext_mpi_exec_blocking(char *ip, MPI_Comm comm, int tag, char *shmem_socket,
       i1 = code_get_int(&ip) * count;
       i2 = code_get_int(&ip);
       recalculate_address_io(sendbuf, recvbuf, count, shmem_blocking, count_io, &p1, &i1);
-      if (send_pointers && send_pointers[send_pointer]) {
-	p2 = send_pointers[send_pointer];
+      if (send_pointers) {
+        p2 = send_pointers[send_pointer++];
         recalculate_address_io(sendbuf, recvbuf, count, shmem_blocking, count_io, &p2, &i1);
-	send_pointer++;
       }
 #ifdef NCCL_ENABLED
       code_get_pointer(&ip);
-- 
2.43.0


From 7d681bc598f3abd1d9d5bfc8f3c18e9064b3df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:39 +0000
Subject: [PATCH 08/19] fix: port lists are stored where the caller reads them
 and fit their allocation

ext_mpi_num_ports_factors wrote groups[0][0] and groups[1][0] for a single
node, the second through a pointer that does not exist. Port lists have up to
2*ceil(log2(nodes))+1 entries, which is more than nodes+1 for three or five
nodes.
---
 src/mpi/ext_mpi.c           | 16 ++++++++--------
 src/mpi/num_ports_factors.c |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index a4de601..f06145e 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -248,10 +248,10 @@ int ext_mpi_allgatherv_init_general(const void *sendbuf, int sendcount,
   my_cores_per_node_row = ext_mpi_get_param(ext_mpi_num_tasks_per_socket, comm, info, "ext_mpi_num_tasks_per_socket", ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node));
   my_cores_per_node_column = 1;
   MPI_Type_size(sendtype, &type_size);
-  num_ports = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!groups)
     goto error;
   PMPI_Allreduce(&sendcount, &scount, 1, MPI_INT, MPI_MAX, comm);
@@ -320,10 +320,10 @@ int ext_mpi_gatherv_init_general(const void *sendbuf, int sendcount,
   my_cores_per_node_row = ext_mpi_get_param(ext_mpi_num_tasks_per_socket, comm, info, "ext_mpi_num_tasks_per_socket", ext_mpi_get_num_tasks_per_socket(comm, num_sockets_per_node));
   my_cores_per_node_column = 1;
   MPI_Type_size(sendtype, &type_size);
-  num_ports = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!groups)
     goto error;
   PMPI_Allreduce(&sendcount, &scount, 1, MPI_INT, MPI_MAX, comm);
@@ -441,10 +441,10 @@ int ext_mpi_reduce_scatter_init_general(
   copyin_factors = (int*) malloc(sizeof(int) * (comm_size_row + 1));
   if (!copyin_factors)
     goto error;
-  num_ports = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!groups)
     goto error;
   rcount = 0;
@@ -547,10 +547,10 @@ int ext_mpi_scatterv_init_general(const void *sendbuf, const int *sendcounts, co
   my_cores_per_node_column = 1;
   MPI_Comm_size(comm, &comm_size_row);
   MPI_Type_size(sendtype, &type_size);
-  num_ports = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  num_ports = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!num_ports)
     goto error;
-  groups = (int *)malloc((comm_size_row + 1) * sizeof(int));
+  groups = (int *)malloc((2 * comm_size_row + 1) * sizeof(int));
   if (!groups)
     goto error;
   rcount = recvcount;
diff --git a/src/mpi/num_ports_factors.c b/src/mpi/num_ports_factors.c
index 0ac6d02..39ca4bb 100644
--- a/src/mpi/num_ports_factors.c
+++ b/src/mpi/num_ports_factors.c
@@ -111,11 +111,11 @@ int ext_mpi_num_ports_factors(int message_size, int collective_type, MPI_Comm co
   int comm_rank_row, comm_size_row, factors_max_max = -1, group_size, **factors, *factors_max, *primes, i, j;
   PMPI_Comm_rank(comm_row, &comm_rank_row);
   PMPI_Comm_size(comm_row, &comm_size_row);
-  (*num_ports) = (int*)malloc((comm_size_row + 1)*sizeof(int));
-  (*groups) = (int*)malloc((comm_size_row + 1)*sizeof(int));
+  (*num_ports) = (int*)malloc((2 * comm_size_row + 1)*sizeof(int));
+  (*groups) = (int*)malloc((2 * comm_size_row + 1)*sizeof(int));
   if (comm_size_row == my_cores_per_node_row * num_sockets_per_node) {
-    (*num_ports)[0] = (*groups[0]) = -1;
-    (*num_ports)[1] = (*groups[1]) = 0;
+    (*num_ports)[0] = (*groups)[0] = -1;
+    (*num_ports)[1] = (*groups)[1] = 0;
     ext_mpi_set_ports_single_node(num_sockets_per_node, *num_ports, *groups);
   } else if (!minimum_computation) {
     if (comm_rank_row == 0) {
-- 
2.43.0


From 51bf608190c7abd383af43d4c113306385ccd9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:18 +0000
Subject: [PATCH 09/19] fix: the measurement of copy-in methods leaves the
 user's buffers alone

EXT_MPI_Allreduce_measurement ran allreduces of all the counts of a
reduce_scatter in a receive buffer that only holds one of them, and replaced
the contents of in-place buffers during initialisation.
---
 src/mpi/cost_copyin_measurement.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/mpi/cost_copyin_measurement.c b/src/mpi/cost_copyin_measurement.c
index 78d855b..2b7a974 100644
--- a/src/mpi/cost_copyin_measurement.c
+++ b/src/mpi/cost_copyin_measurement.c
@@ -158,6 +158,7 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
                                   int **copyin_factors, int *num_sockets_per_node) {
   int mpi_rank_row, mpi_size_row, i, j, k, copyin_factors_min[*my_cores_per_node_row+1], msize, copyin_method_min, num_sockets_per_node_min, num_sockets_per_node_max = 1, one_socket_only = 0;
   double time, time_min;
+  void *sendbuf_m = NULL, *recvbuf_m = NULL;
   if (*num_sockets_per_node == -1) {
     *num_sockets_per_node = -*num_sockets_per_node;
     one_socket_only = 1;
@@ -172,12 +173,24 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
     (*copyin_factors)[0] = 1;
     (*copyin_factors)[1] = 0;
   } else {
-    time_min = allreduce_measurement(sendbuf, recvbuf, count, datatype, op, comm_row, *my_cores_per_node_row, comm_column, my_cores_per_node_column, num_active_ports, &copyin_method_min, copyin_factors_min, *num_sockets_per_node);
+    // the buffers of the user may be shorter than count and must keep their contents
+#ifdef GPU_ENABLED
+    if (ext_mpi_gpu_is_device_pointer(recvbuf)) {
+      ext_mpi_gpu_malloc(&sendbuf_m, msize);
+      ext_mpi_gpu_malloc(&recvbuf_m, msize);
+    } else {
+#endif
+      sendbuf_m = calloc(msize + 1, 1);
+      recvbuf_m = calloc(msize + 1, 1);
+#ifdef GPU_ENABLED
+    }
+#endif
+    time_min = allreduce_measurement(sendbuf_m, recvbuf_m, count, datatype, op, comm_row, *my_cores_per_node_row, comm_column, my_cores_per_node_column, num_active_ports, &copyin_method_min, copyin_factors_min, *num_sockets_per_node);
     num_sockets_per_node_min = 1;
     if (*my_cores_per_node_row == mpi_size_row && !one_socket_only) num_sockets_per_node_max = 4;
     for (j = 2; j <= num_sockets_per_node_max; j *= 2){
       if (*num_sockets_per_node == 1 && *my_cores_per_node_row % j == 0) {
-        time = allreduce_measurement(sendbuf, recvbuf, count, datatype, op, comm_row, *my_cores_per_node_row/j, comm_column, my_cores_per_node_column, num_active_ports, copyin_method, *copyin_factors, *num_sockets_per_node*j);
+        time = allreduce_measurement(sendbuf_m, recvbuf_m, count, datatype, op, comm_row, *my_cores_per_node_row/j, comm_column, my_cores_per_node_column, num_active_ports, copyin_method, *copyin_factors, *num_sockets_per_node*j);
         k = time < time_min;
         MPI_Bcast(&k, 1, MPI_INT, 0, comm_row);
         if (k) {
@@ -191,6 +204,17 @@ int EXT_MPI_Allreduce_measurement(const void *sendbuf, void *recvbuf, int count,
         }
       }
     }
+#ifdef GPU_ENABLED
+    if (ext_mpi_gpu_is_device_pointer(recvbuf)) {
+      ext_mpi_gpu_free(sendbuf_m);
+      ext_mpi_gpu_free(recvbuf_m);
+    } else {
+#endif
+      free(sendbuf_m);
+      free(recvbuf_m);
+#ifdef GPU_ENABLED
+    }
+#endif
     MPI_Bcast(&num_sockets_per_node_min, 1, MPI_INT, 0, comm_row);
     *copyin_method = copyin_method_min;
     MPI_Bcast(copyin_method, 1, MPI_INT, 0, comm_row);
-- 
2.43.0


From c424fbc0190adfe6e36536b09464a2dfc2fbd220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:54 +0000
Subject: [PATCH 10/19] fix: reduce uses the port list of the number of sockets
 that was measured

---
 src/mpi/ext_mpi.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpi/ext_mpi.c b/src/mpi/ext_mpi.c
index f06145e..6de2233 100644
--- a/src/mpi/ext_mpi.c
+++ b/src/mpi/ext_mpi.c
@@ -772,6 +772,9 @@ int ext_mpi_reduce_init_general(const void *sendbuf, void *recvbuf, int count,
           my_cores_per_node, &copyin_method, &copyin_factors, &num_sockets_per_node);
     }
   }
+  if (num_sockets_per_node_ == 1) {
+    ext_mpi_set_ports_single_node(num_sockets_per_node, num_ports, groups);
+  }
   if (ext_mpi_verbose) {
     if (ext_mpi_is_rank_zero(comm, MPI_COMM_NULL)){
       printf("# EXT_MPI MPI tasks per socket: %d\n", my_cores_per_node);
-- 
2.43.0


From 63247ca8af629a748a80a9f8ad766aaf066112bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:28 +0000
Subject: [PATCH 11/19] fix: reduce and bcast use the node of the root rank
 with several tasks per node

The root is a rank everywhere else; both interpreters took it for a node.
---
 src/mpi/backward_interpreter.c | 2 +-
 src/mpi/forward_interpreter.c  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mpi/backward_interpreter.c b/src/mpi/backward_interpreter.c
index 57ee9cf..f675184 100644
--- a/src/mpi/backward_interpreter.c
+++ b/src/mpi/backward_interpreter.c
@@ -54,7 +54,7 @@ int ext_mpi_generate_backward_interpreter(char *buffer_in, char *buffer_out,
   for (i = 0; i < data.blocks[data.num_blocks - 1].num_lines; i++) {
     for (j = 0; j < data.blocks[data.num_blocks - 1].lines[i].sendto_max; j++) {
       if ((data.blocks[data.num_blocks - 1].lines[i].sendto_node[j] == -1) &&
-          (parameters->socket == parameters->root)) {
+          (parameters->socket == parameters->root / parameters->socket_row_size)) {
         values[data.num_blocks - 1][i] = 2;
       }
     }
diff --git a/src/mpi/forward_interpreter.c b/src/mpi/forward_interpreter.c
index 7a24999..263292b 100644
--- a/src/mpi/forward_interpreter.c
+++ b/src/mpi/forward_interpreter.c
@@ -51,9 +51,9 @@ int ext_mpi_generate_forward_interpreter(char *buffer_in, char *buffer_out,
       values[i][j] = 0;
     }
   }
-  k = parameters->socket == parameters->root;
+  k = parameters->root >= 0 && parameters->socket == parameters->root / parameters->socket_row_size;
   if (parameters->root <= -10) {
-    k = parameters->socket == (-10 - parameters->root);
+    k = parameters->socket == (-10 - parameters->root) / parameters->socket_row_size;
   }
   for (i = 0; i < data.blocks[0].num_lines; i++) {
     for (j = 0; j < data.blocks[0].lines[i].recvfrom_max; j++) {
-- 
2.43.0


From 898bef542e8f99df7035490c59661161e440d27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:22 +0000
Subject: [PATCH 12/19] fix: in-place reductions do not use the two user
 buffers as different temporaries

---
 src/mpi/ext_mpi_native.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index b520ed9..73273c2 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -848,7 +848,7 @@ buffer2 = buffer_temp;
     buffer2 = buffer1;
     buffer1 = buffer_temp;
   }
-  if (root > -10 && !not_recursive && my_cores_per_node_row * my_cores_per_node_column == 1) {
+  if (root > -10 && !not_recursive && sendbuf != recvbuf && my_cores_per_node_row * my_cores_per_node_column == 1) {
     if (ext_mpi_generate_use_sendbuf_recvbuf(buffer2, buffer1) < 0)
       goto error;
     buffer_temp = buffer2;
-- 
2.43.0


From 07ea9837cbc9c2b57a64268327bd4e4100f16c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:45 +0000
Subject: [PATCH 13/19] fix: copyout of short messages uses the copyin's layout
 for bcast and allgather on one node

---
 src/core/reduce_copyout.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/reduce_copyout.c b/src/core/reduce_copyout.c
index 446a80f..20c9393 100644
--- a/src/core/reduce_copyout.c
+++ b/src/core/reduce_copyout.c
@@ -54,7 +54,8 @@ int ext_mpi_generate_reduce_copyout(char *buffer_in, char *buffer_out) {
   counts = parameters->counts;
   iocounts_max = parameters->iocounts_max;
   iocounts = parameters->iocounts;
-  if (!parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST) {
+  if (!parameters->on_gpu && parameters->num_sockets == 1 && parameters->message_sizes[0] <= CACHE_LINE_SIZE - OFFSET_FAST &&
+      parameters->collective_type != collective_type_allgatherv && parameters->root > -10) {
     fast = 1;
   }
   switch (parameters->data_type) {
-- 
2.43.0


From b17409be34026bbc7c36ba88337e490129b78563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:45 +0000
Subject: [PATCH 14/19] fix: reduce_scatter with one task per node keeps the
 rank permutation

---
 src/mpi/ext_mpi_native.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index 73273c2..ea1d777 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -1555,6 +1555,10 @@ int EXT_MPI_Reduce_scatter_init_native(
         goto error;
     }
 #endif
+  } else {
+    buffer_temp = buffer2;
+    buffer2 = buffer1;
+    buffer1 = buffer_temp;
   }
   if (my_mpi_size_row / my_cores_per_node_row > 1) {
     if (ext_mpi_generate_reduce_copyin(buffer1, buffer2) < 0)
-- 
2.43.0


From 8e8cba5ab514a431a2a018800b9e3ae22a0bffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:55 +0000
Subject: [PATCH 15/19] fix: barrier counters are compared in unsigned
 arithmetic, so that wraparound is not optimised away

---
 src/mpi/ext_mpi_native_exec.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/mpi/ext_mpi_native_exec.c b/src/mpi/ext_mpi_native_exec.c
index afdc136..cf4747a 100644
--- a/src/mpi/ext_mpi_native_exec.c
+++ b/src/mpi/ext_mpi_native_exec.c
@@ -27,9 +27,9 @@ static void node_barrier(char **shmem, int *barrier_count, int socket_rank, int
   int step;
   for (step = 1; step < num_sockets_per_node; step <<= 1) {
     ((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = *barrier_count;
-    while ((unsigned int)(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - *barrier_count) > INT_MAX)
+    while ((unsigned int)((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - (unsigned int)*barrier_count > INT_MAX)
       ;
-    (*barrier_count)++;
+    *barrier_count = (int)((unsigned int)*barrier_count + 1);
   }
 }
 
@@ -37,10 +37,10 @@ static int node_barrier_test(char **shmem, int barrier_count, int socket_rank, i
   int step;
   for (step = 1; step < num_sockets_per_node; step <<= 1) {
     ((volatile int*)(shmem[0]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
-    if ((unsigned int)(((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
+    if ((unsigned int)((volatile int*)(shmem[step]))[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] - (unsigned int)barrier_count > INT_MAX) {
       return 1;
     }
-    barrier_count++;
+    barrier_count = (int)((unsigned int)barrier_count + 1);
   }
   return 0;
 }
@@ -49,9 +49,9 @@ static void socket_barrier(char *shmem, int *barrier_count, int socket_rank, int
   int step;
   for (step = 1; step < num_cores; step <<= 1) {
     ((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = *barrier_count;
-    while ((unsigned int)(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - *barrier_count) > INT_MAX)
+    while ((unsigned int)((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - (unsigned int)*barrier_count > INT_MAX)
       ;
-    (*barrier_count)++;
+    *barrier_count = (int)((unsigned int)*barrier_count + 1);
   }
 }
 
@@ -59,10 +59,10 @@ static int socket_barrier_test(char *shmem, int barrier_count, int socket_rank,
   int step;
   for (step = 1; step < num_cores; step <<= 1) {
     ((volatile int*)shmem)[socket_rank * (CACHE_LINE_SIZE / sizeof(int))] = barrier_count;
-    if ((unsigned int)(((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX) {
+    if ((unsigned int)((volatile int*)shmem)[((socket_rank + step) % num_cores) * (CACHE_LINE_SIZE / sizeof(int))] - (unsigned int)barrier_count > INT_MAX) {
       return 1;
     }
-    barrier_count++;
+    barrier_count = (int)((unsigned int)barrier_count + 1);
   }
   return 0;
 }
@@ -72,13 +72,13 @@ static void socket_barrier_atomic_set(char *shmem, int barrier_count, int entry)
 }
 
 static void socket_barrier_atomic_wait(char *shmem, int *barrier_count, int entry) {
-  while ((unsigned int)(((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - *barrier_count) > INT_MAX)
+  while ((unsigned int)((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - (unsigned int)*barrier_count > INT_MAX)
     ;
-  (*barrier_count)++;
+  *barrier_count = (int)((unsigned int)*barrier_count + 1);
 }
 
 static int socket_barrier_atomic_test(char *shmem, int barrier_count, int entry) {
-  return (unsigned int)(((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - barrier_count) > INT_MAX;
+  return (unsigned int)((volatile int*)shmem)[entry * (CACHE_LINE_SIZE / sizeof(int))] - (unsigned int)barrier_count > INT_MAX;
 }
 
 static void reduce_waitany(void **pointers_to, void **pointers_from, int *sizes, int num_red, int op_reduce){
-- 
2.43.0


From dc93249d01460b2ace10891ba56eab07bb7cd5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:55 +0000
Subject: [PATCH 16/19] fix: EXT_MPI_Progress without any request does nothing

---
 src/mpi/ext_mpi_native.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mpi/ext_mpi_native.c b/src/mpi/ext_mpi_native.c
index ea1d777..11662c1 100644
--- a/src/mpi/ext_mpi_native.c
+++ b/src/mpi/ext_mpi_native.c
@@ -257,6 +257,9 @@ int EXT_MPI_Test_native(int handle) {
 
 int EXT_MPI_Progress_native() {
   int ret = 0, handle;
+  if (!execution_pointer) {
+    return 0;
+  }
   for (handle = 0; handle < handle_code_max; handle += 2) {
     if (execution_pointer[handle]) {
       ret += ext_mpi_exec_native(comm_code[handle], &execution_pointer[handle],
-- 
2.43.0


From a6acf24e2794ddb2c5435e35edbc743417a2ec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:19 +0000
Subject: [PATCH 17/19] fix: parallel_memcpy keeps the place of the line, so
 that all tasks of a node agree on the pieces

---
 src/core/parallel_memcpy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/parallel_memcpy.c b/src/core/parallel_memcpy.c
index 4dfbbe1..2888813 100644
--- a/src/core/parallel_memcpy.c
+++ b/src/core/parallel_memcpy.c
@@ -126,6 +126,7 @@ int ext_mpi_generate_parallel_memcpy(char *buffer_in, char *buffer_out) {
             nbuffer_out += ext_mpi_write_memcpy_reduce(
                 buffer_out + nbuffer_out, &data_memcpy_reduce, parameters->ascii_out);
           }
+          data_memcpy_reduce = data_memcpy_reduce_;
           flag = 0;
         }
       }
-- 
2.43.0


From e043dd9508fc8118c3d791e0ef069a47df81691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:53 +0000
Subject: [PATCH 18/19] fix: raw_code_merge only joins copies of the same
 buffers that are contiguous and do not overlap

---
 src/core/raw_code_merge.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core/raw_code_merge.c b/src/core/raw_code_merge.c
index f72aa80..e3c9276 100644
--- a/src/core/raw_code_merge.c
+++ b/src/core/raw_code_merge.c
@@ -5,9 +5,16 @@
 #include <stdlib.h>
 #include <string.h>
 
+/* same buffers, and the merged line would not read what it writes */
+static int can_merge(struct line_memcpy_reduce *data1, struct line_memcpy_reduce *data2) {
+  if ((data1->buffer_type1 != data2->buffer_type1) || (data1->buffer_type2 != data2->buffer_type2)) return 0;
+  if ((data1->buffer_type1 != data1->buffer_type2) || (data1->buffer_number1 != data1->buffer_number2) || (data1->offset_number1 != data1->offset_number2)) return 1;
+  return abs(data1->offset1 - data1->offset2) >= data1->size + data2->size;
+}
+
 int ext_mpi_generate_raw_code_merge(char *buffer_in, char *buffer_out) {
   struct line_memcpy_reduce data_memcpy_reduce, data_memcpy_reduce_, data_memcpy_reduce__;
-  int nbuffer_out = 0, nbuffer_in = 0, i, nin_new, flag, flag3, flag4, flag5;
+  int nbuffer_out = 0, nbuffer_in = 0, i, nin_new, flag, flag3, flag4, flag5, size1;
   char line[1000], line2[1000];
   enum eassembler_type estring1;
   struct parameters_block *parameters;
@@ -24,6 +31,7 @@ int ext_mpi_generate_raw_code_merge(char *buffer_in, char *buffer_out) {
       if ((estring1 == ememcpy) || (estring1 == ereduce) ||
           (estring1 == ememcp_) || (estring1 == ereduc_)) {
         ext_mpi_read_memcpy_reduce(line, &data_memcpy_reduce);
+        size1 = data_memcpy_reduce.size;
         nin_new = nbuffer_in;
         flag5 =
             ext_mpi_read_line(buffer_in + nbuffer_in, line2, parameters->ascii_in);
@@ -32,7 +40,7 @@ int ext_mpi_generate_raw_code_merge(char *buffer_in, char *buffer_out) {
                  (data_memcpy_reduce.offset_number2 == data_memcpy_reduce_.offset_number2) && (data_memcpy_reduce.buffer_number1 == data_memcpy_reduce_.buffer_number1) && 
                  (data_memcpy_reduce.buffer_number2 == data_memcpy_reduce_.buffer_number2) && (data_memcpy_reduce.offset1 + data_memcpy_reduce.size == data_memcpy_reduce_.offset1) &&
                  (data_memcpy_reduce.offset2 + data_memcpy_reduce.size == data_memcpy_reduce_.offset2) &&
-                 (data_memcpy_reduce.offset1 != data_memcpy_reduce_.offset2)) {
+                 (data_memcpy_reduce.offset1 != data_memcpy_reduce_.offset2) && can_merge(&data_memcpy_reduce, &data_memcpy_reduce_)) {
             data_memcpy_reduce.size += data_memcpy_reduce_.size;
             nin_new += flag5;
             flag5 =
@@ -51,7 +59,8 @@ int ext_mpi_generate_raw_code_merge(char *buffer_in, char *buffer_out) {
             while ((flag5 > 0) && (data_memcpy_reduce.type == data_memcpy_reduce_.type) && (data_memcpy_reduce.offset_number1 == data_memcpy_reduce_.offset_number1) &&
                    (data_memcpy_reduce.offset_number2 == data_memcpy_reduce_.offset_number2) && (data_memcpy_reduce.buffer_number1 == data_memcpy_reduce_.buffer_number1) &&
                    (data_memcpy_reduce.buffer_number2 == data_memcpy_reduce_.buffer_number2) && (data_memcpy_reduce.offset1 - data_memcpy_reduce.size == data_memcpy_reduce_.offset1) &&
-                   (data_memcpy_reduce.offset2 - data_memcpy_reduce.size == data_memcpy_reduce_.offset2)) {
+                   (data_memcpy_reduce.offset2 - data_memcpy_reduce.size == data_memcpy_reduce_.offset2) &&
+                   (data_memcpy_reduce_.size == size1) && can_merge(&data_memcpy_reduce, &data_memcpy_reduce_)) {
               data_memcpy_reduce.size += data_memcpy_reduce_.size;
               nin_new += flag5;
               flag5 =
-- 
2.43.0


From 9eda7beae2eb7cd6289810707e71cf1b1bfe8c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:31:56 +0000
Subject: [PATCH 19/19] fix: raw_code_merge does not join a place behind all
 segments with a plain place

---
 src/core/raw_code_merge.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/raw_code_merge.c b/src/core/raw_code_merge.c
index e3c9276..2644f02 100644
--- a/src/core/raw_code_merge.c
+++ b/src/core/raw_code_merge.c
@@ -8,6 +8,7 @@
 /* same buffers, and the merged line would not read what it writes */
 static int can_merge(struct line_memcpy_reduce *data1, struct line_memcpy_reduce *data2) {
   if ((data1->buffer_type1 != data2->buffer_type1) || (data1->buffer_type2 != data2->buffer_type2)) return 0;
+  if ((data1->is_offset1 != data2->is_offset1) || (data1->is_offset2 != data2->is_offset2)) return 0;
   if ((data1->buffer_type1 != data1->buffer_type2) || (data1->buffer_number1 != data1->buffer_number2) || (data1->offset_number1 != data1->offset_number2)) return 1;
   return abs(data1->offset1 - data1->offset2) >= data1->size + data2->size;
 }
-- 
2.43.0

