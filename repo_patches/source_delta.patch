From 55fcf577e397f546b3079d4365050945d004d9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 01/77] fix: reset the links of a node removed from a linked
 list

A removed (or popped) node kept its next and previous references, so
appending it again produced a cyclic list.
---
 src/viriatum_commons/structures/linked_list.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/viriatum_commons/structures/linked_list.c b/src/viriatum_commons/structures/linked_list.c
index 2c3e233..6edc0fa 100644
--- a/src/viriatum_commons/structures/linked_list.c
+++ b/src/viriatum_commons/structures/linked_list.c
@@ -309,6 +309,11 @@ void remove_linked_list(struct linked_list_t *linked_list, struct linked_list_no
     node is defined) must set the next node as the first node */
     if(previous_node == NULL) { linked_list->first = next_node; }
 
+    /* detaches the node from its previous neighbours, otherwise
+    appending it again would connect it to stale nodes */
+    linked_list_node->next = NULL;
+    linked_list_node->previous = NULL;
+
     /* decrements the linked list size, because the linked list
     has shrinked in size by one */
     linked_list->size--;
-- 
2.43.0


From 1682c1cd853174cc18fac6c86fad810187ca9868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 02/77] fix: forget the released nodes when clearing a linked
 list

first and last still referred to released nodes, peek and iterators of
a cleared list accessed released memory.
---
 src/viriatum_commons/structures/linked_list.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/structures/linked_list.c b/src/viriatum_commons/structures/linked_list.c
index 6edc0fa..65daa83 100644
--- a/src/viriatum_commons/structures/linked_list.c
+++ b/src/viriatum_commons/structures/linked_list.c
@@ -128,8 +128,10 @@ void clear_linked_list(struct linked_list_t *linked_list) {
     }
 
     /* resets the linked list size to the original
-    empty value of zero */
+    empty value of zero, no (released) node is kept */
     linked_list->size = 0;
+    linked_list->first = NULL;
+    linked_list->last = NULL;
 }
 
 void append_linked_list(struct linked_list_t *linked_list, struct linked_list_node_t *linked_list_node) {
-- 
2.43.0


From 8b1ad3eb84a1b6c393f1c2c0d48b723cb71563c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 03/77] fix: do not count an overwritten key twice in the hash
 map size

---
 src/viriatum_commons/structures/hash_map.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/structures/hash_map.c b/src/viriatum_commons/structures/hash_map.c
index e966013..0236784 100644
--- a/src/viriatum_commons/structures/hash_map.c
+++ b/src/viriatum_commons/structures/hash_map.c
@@ -411,6 +411,10 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         }
     }
 
+    /* in case the element is a new one (no overwrite of an
+    existing key) increments the hash map size */
+    if(element->used == 0) { hash_map->size++; }
+
     /* in case the key string is already defined in the
     element (must release it properly) unsets it */
     if(element->key_string != NULL) {
@@ -436,9 +440,6 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         element->key_string = (unsigned char *) MALLOC(key_string_size + 1);
         memcpy(element->key_string, key_string, key_string_size + 1);
     }
-
-    /* increments the hash map size */
-    hash_map->size++;
 }
 
 void _resize_hash_map(struct hash_map_t *hash_map) {
-- 
2.43.0


From 88b3af77a890eb0e33311ab52dacd856fd6e9732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 04/77] fix: keep a single position for an overwritten sort map
 key

Setting a key again appended it a second time to the order and left the
first position with a released key string.
---
 src/viriatum_commons/structures/sort_map.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/viriatum_commons/structures/sort_map.c b/src/viriatum_commons/structures/sort_map.c
index f447289..c276c77 100644
--- a/src/viriatum_commons/structures/sort_map.c
+++ b/src/viriatum_commons/structures/sort_map.c
@@ -59,6 +59,11 @@ void delete_sort_map(struct sort_map_t *sort_map) {
 void set_value_sort_map(struct sort_map_t *sort_map, size_t key, unsigned char *key_string, void *value) {
     struct hash_map_element_t *element;
 
+    /* in case the key is already set only its value must be
+    changed, the position and the key string remain the same */
+    get_hash_map(sort_map->hash_map, key, key_string, &element);
+    if(element->used == 1) { element->value = value; return; }
+
     set_value_hash_map(sort_map->hash_map, key, key_string, value);
     get_hash_map(sort_map->hash_map, key, key_string, &element);
     append_value_linked_list(sort_map->key_list, (void *) key);
-- 
2.43.0


From e2c26a39542af021eb5ae9dbd472b612b86215bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 05/77] fix: keep the size of an empty priority queue at zero
 when popping

---
 src/viriatum_commons/structures/priority_queue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/structures/priority_queue.c b/src/viriatum_commons/structures/priority_queue.c
index dadb1cd..222d1cf 100644
--- a/src/viriatum_commons/structures/priority_queue.c
+++ b/src/viriatum_commons/structures/priority_queue.c
@@ -106,5 +106,5 @@ void pop_priority_queue(struct priority_queue_t *priority_queue, void **value_po
     /* pops a value from the underlying list directly to the value pointer
     and then decrements the size of the current priority queue */
     pop_value_linked_list(priority_queue->list, value_pointer, TRUE);
-    priority_queue->size--;
+    priority_queue->size = priority_queue->list->size;
 }
-- 
2.43.0


From f07a44eea8ce23970ad0273f13c42dc1b950f323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 06/77] fix: do not read the pivot of an empty sequence in
 quicksort

---
 src/viriatum_commons/sorting/quicksort.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/viriatum_commons/sorting/quicksort.c b/src/viriatum_commons/sorting/quicksort.c
index 0266f38..7080ea5 100644
--- a/src/viriatum_commons/sorting/quicksort.c
+++ b/src/viriatum_commons/sorting/quicksort.c
@@ -31,7 +31,7 @@
 
 void sort_quicksort(void **sequence, size_t beginning, size_t end, comparator cmp) {
     /* retrieves the initial pivor, left and right elements */
-    void *pivot = sequence[beginning];
+    void *pivot;
     size_t left = beginning + 1;
     size_t right = end;
 
@@ -42,6 +42,9 @@ void sort_quicksort(void **sequence, size_t beginning, size_t end, comparator cm
         return;
     }
 
+    /* retrieves the pivot, the sequence has at least two elements */
+    pivot = sequence[beginning];
+
     /* iterates while the right index is greater
     than the left index */
     while(left < right) {
-- 
2.43.0


From 0aeeb41a6c09d010f0cac33ca6db1885795525af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:59 +0000
Subject: [PATCH 07/77] fix: address array list elements in bytes

The byte offset of the element indexed an array of pointers, so every
element but the first was stored out of the allocated buffer.
---
 src/viriatum_commons/structures/array_list.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/structures/array_list.c b/src/viriatum_commons/structures/array_list.c
index dce5ad0..4a289ea 100644
--- a/src/viriatum_commons/structures/array_list.c
+++ b/src/viriatum_commons/structures/array_list.c
@@ -71,7 +71,7 @@ void set_array_list(struct array_list_t *array_list, size_t index, void *element
     size_t base_index = array_list->element_size * index;
 
     /* retrieves the base address value */
-    void *base_address = &array_list->elements_buffer[base_index];
+    void *base_address = (unsigned char *) array_list->elements_buffer + base_index;
 
     /* copies the element to the array list
     elements buffer, using the element size */
@@ -83,7 +83,7 @@ void get_array_list(struct array_list_t *array_list, size_t index, void **elemen
     size_t base_index = array_list->element_size * index;
 
     /* retrieves the element from the element buffer */
-    void *element = &array_list->elements_buffer[base_index];
+    void *element = (unsigned char *) array_list->elements_buffer + base_index;
 
     /* sets the element in the element pointer */
     *element_pointer = element;
-- 
2.43.0


From f6eec74282f026415dad07dbc286c05b0968039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 08/77] fix: forget the outstanding operations of a connection
 being removed from epoll

The outstanding buffers kept the pointer of a connection that was closed (and
released) in the same cycle, which was then used in the next one.
---
 src/viriatum/polling/polling_epoll.c | 35 ++++++++++++++++++++++++++++
 src/viriatum/polling/polling_epoll.h |  5 ++++
 2 files changed, 40 insertions(+)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 6896c16..6c03422 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -188,6 +188,19 @@ ERROR_CODE unregister_connection_polling_epoll(
         );
     }
 
+    /* removes the connection from the outstanding buffers, as it
+    may be released before the next processing of those buffers */
+    _remove_outstanding_polling_epoll(
+        polling_epoll->read_outstanding,
+        &polling_epoll->read_outstanding_size,
+        connection
+    );
+    _remove_outstanding_polling_epoll(
+        polling_epoll->write_outstanding,
+        &polling_epoll->write_outstanding_size,
+        connection
+    );
+
     /* in case the remove connection flag is set the connection
     is also added to the list of connections to be removed
     after the io driven logic part is processed (at the end
@@ -677,6 +690,28 @@ ERROR_CODE _call_polling_epoll(
     RAISE_NO_ERROR;
 }
 
+void _remove_outstanding_polling_epoll(
+    struct connection_t **outstanding,
+    size_t *outstanding_size,
+    struct connection_t *connection
+) {
+    /* allocates space for the indexes of the read and of
+    the write positions in the buffer */
+    size_t index;
+    size_t target = 0;
+
+    /* iterates over the buffer moving every other connection
+    to the first available position */
+    for(index = 0; index < *outstanding_size; index++) {
+        if(outstanding[index] == connection) { continue; }
+        outstanding[target] = outstanding[index];
+        target++;
+    }
+
+    /* updates the size of the buffer */
+    *outstanding_size = target;
+}
+
 ERROR_CODE _outstanding_polling_epoll(
     struct polling_epoll_t *polling_epoll,
     struct connection_t **read_outstanding,
diff --git a/src/viriatum/polling/polling_epoll.h b/src/viriatum/polling/polling_epoll.h
index fc51160..00eada2 100644
--- a/src/viriatum/polling/polling_epoll.h
+++ b/src/viriatum/polling/polling_epoll.h
@@ -190,5 +190,10 @@ ERROR_CODE _outstanding_polling_epoll(
     size_t read_outstanding_size,
     size_t write_outstanding_size
 );
+void _remove_outstanding_polling_epoll(
+    struct connection_t **outstanding,
+    size_t *outstanding_size,
+    struct connection_t *connection
+);
 
 #endif
-- 
2.43.0


From 124af1a6f777d09dbc196925090a00352e21b8f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:02 +0000
Subject: [PATCH 09/77] fix: do not block the epoll wait while there are
 outstanding operations

An operation registered while the outstanding ones were being processed was
only handled after the next event, which may never come.
---
 src/viriatum/polling/polling_epoll.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 6c03422..144383a 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -441,6 +441,12 @@ ERROR_CODE _poll_polling_epoll(
     int index;
     int event_count;
 
+    /* in case there are outstanding operations (registered while
+    processing the previous ones) the wait must not block, as no
+    event is going to be raised for them */
+    int pending = polling_epoll->read_outstanding_size > 0 ||\
+        polling_epoll->write_outstanding_size > 0;
+
     /* allocates space for the reference to the connection
     to be used in the iteration cycle (temporary object) */
     struct connection_t *connection;
@@ -468,14 +474,14 @@ ERROR_CODE _poll_polling_epoll(
         polling_epoll->epoll_fd,
         events,
         VIRIATUM_MAX_EVENTS,
-        VIRIATUM_SELECT_TIMEOUT * 1000
+        pending ? 0 : VIRIATUM_SELECT_TIMEOUT * 1000
     );
 #else
     event_count = epoll_wait(
         polling_epoll->epoll_fd,
         events,
         VIRIATUM_MAX_EVENTS,
-        -1
+        pending ? 0 : -1
     );
 #endif
 
-- 
2.43.0


From 9424fd7fe039a54059940f304524f201bccea12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:42 +0000
Subject: [PATCH 10/77] fix: do not read past a short section name when looking
 for locations

---
 src/viriatum/system/service.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 69b19c6..f355764 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -321,7 +321,7 @@ ERROR_CODE calculate_locations_service(struct service_t *service) {
         get_next_iterator(iterator, (void **) &element);
         if(element == NULL) { break; }
 
-        is_equal = memcmp(element->key_string, "location:", sizeof("location:") - 1);
+        is_equal = strncmp((char *) element->key_string, "location:", sizeof("location:") - 1);
         if(is_equal != 0) { continue; }
 
         get_value_string_sort_map(configuration, element->key_string, (void **) &location);
-- 
2.43.0


From f05910bbdd09018d5bc8e73d7a7796cf83571e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 11/77] fix: close the service socket only once

The service connection owns the socket and closes it with the other connections,
delete_service then closed the same descriptor number a second time.
---
 src/viriatum/system/service.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index f355764..b561e59 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -627,6 +627,7 @@ ERROR_CODE start_service(struct service_t *service) {
         SOCKET_ERROR_CODE option_error_code = SOCKET_GET_ERROR_CODE(socket_result);
         V_ERROR_F("Problem setting socket option: %d\n", option_error_code);
         SOCKET_CLOSE(service->service_socket_handle);
+        service->service_socket_handle = 0;
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem setting socket option"
@@ -741,6 +742,7 @@ ERROR_CODE start_service(struct service_t *service) {
             SOCKET_ERROR_CODE option_error_code = SOCKET_GET_ERROR_CODE(socket_result);
             V_ERROR_F("Problem setting ip6 socket option: %d\n", option_error_code);
             SOCKET_CLOSE(service->service_socket6_handle);
+            service->service_socket6_handle = 0;
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem setting ip6 socket option"
@@ -764,6 +766,7 @@ ERROR_CODE start_service(struct service_t *service) {
             SOCKET_ERROR_CODE option_error_code = SOCKET_GET_ERROR_CODE(socket_result);
             V_ERROR_F("Problem setting ip6 socket option: %d\n", option_error_code);
             SOCKET_CLOSE(service->service_socket6_handle);
+            service->service_socket6_handle = 0;
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem setting ip6 socket option"
@@ -809,6 +812,7 @@ ERROR_CODE start_service(struct service_t *service) {
         if it did closes the socket and returns in error (major problem) */
         if(SOCKET_EX_TEST_ERROR(socket_result)) {
             SOCKET_CLOSE(service->service_socket_handle);
+            service->service_socket_handle = 0;
             V_ERROR("Problem loading the ssl certificate file (*.crt)\n");
             V_WARNING_F("Using certificate file path (%s)\n", _config_path);
             RAISE_ERROR_M(
@@ -839,6 +843,7 @@ ERROR_CODE start_service(struct service_t *service) {
         if it did closes the socket and returns in error (major problem) */
         if(SOCKET_EX_TEST_ERROR(socket_result)) {
             SOCKET_CLOSE(service->service_socket_handle);
+            service->service_socket_handle = 0;
             V_ERROR("Problem loading the ssl key file (*.key)\n");
             V_WARNING_F("Using key file path (%s)\n", _config_path);
             RAISE_ERROR_M(
@@ -862,6 +867,7 @@ ERROR_CODE start_service(struct service_t *service) {
         /* closes the service socket and raises an error indicating
         the problem binding the socket */
         SOCKET_CLOSE(service->service_socket_handle);
+        service->service_socket_handle = 0;
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem binding socket"
@@ -881,6 +887,7 @@ ERROR_CODE start_service(struct service_t *service) {
         /* closes the service socket and raises an error indicating
         the problem listening the socket */
         SOCKET_CLOSE(service->service_socket_handle);
+        service->service_socket_handle = 0;
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem listening socket"
@@ -919,6 +926,7 @@ ERROR_CODE start_service(struct service_t *service) {
             /* closes the service socket and raises an error indicating
             the problem listening the socket */
             SOCKET_CLOSE(service->service_socket_handle);
+            service->service_socket_handle = 0;
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem binding socket"
@@ -938,6 +946,7 @@ ERROR_CODE start_service(struct service_t *service) {
             /* closes the service socket and raises an error indicating
             the problem listening the socket */
             SOCKET_CLOSE(service->service_socket_handle);
+            service->service_socket_handle = 0;
             RAISE_ERROR_M(
                 RUNTIME_EXCEPTION_ERROR_CODE,
                 (unsigned char *) "Problem listening socket"
@@ -1151,6 +1160,13 @@ ERROR_CODE start_service(struct service_t *service) {
     close_connections_service(service);
     polling->close(polling);
 
+    /* the service sockets were closed together with the service
+    connections that own them and must not be closed again */
+    service->service_socket_handle = 0;
+#ifdef VIRIATUM_IP6
+    service->service_socket6_handle = 0;
+#endif
+
     /* unloads the modules for the service */
     unload_modules_service(service);
 
-- 
2.43.0


From 0b8474708df3e5116df70f0748244e477462149f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:29 +0000
Subject: [PATCH 12/77] fix: respect the size of the buffer when formatting
 strings

---
 src/viriatum_commons/system/system_util.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/viriatum_commons/system/system_util.h b/src/viriatum_commons/system/system_util.h
index fb8fc25..3e1a0cf 100644
--- a/src/viriatum_commons/system/system_util.h
+++ b/src/viriatum_commons/system/system_util.h
@@ -62,8 +62,8 @@
 #define LOCAL_TIME(local_time_value, time_value) local_time_value = localtime(time_value)
 #define SLEEP(miliseconds) usleep((useconds_t) miliseconds * 1000)
 #define GET_PID() getpid()
-#define SPRINTF(buffer, size, format, ...) sprintf(buffer, format, __VA_ARGS__)
-#define VSPRINTF(buffer, size, format, arg) vsprintf(buffer, format, arg)
+#define SPRINTF(buffer, size, format, ...) snprintf(buffer, size, format, __VA_ARGS__)
+#define VSPRINTF(buffer, size, format, arg) vsnprintf(buffer, size, format, arg)
 #define SSCANF(buffer, format, ...) sscanf(buffer, format, __VA_ARGS__)
 #define STRTOK(string, delimiter, context) strtok(string, delimiter); dump((void *) &context)
 #define STRCPY(destination, size, source) strcpy(destination, source)
@@ -92,8 +92,8 @@
 
 #ifdef VIRIATUM_PLATFORM_MINGW
 #define LOCAL_TIME(local_time_value, time_value) local_time_value = localtime(time_value)
-#define SPRINTF(buffer, size, format, ...) sprintf(buffer, format, __VA_ARGS__)
-#define VSPRINTF(buffer, size, format, arg) vsprintf(buffer, format, arg)
+#define SPRINTF(buffer, size, format, ...) snprintf(buffer, size, format, __VA_ARGS__)
+#define VSPRINTF(buffer, size, format, arg) vsnprintf(buffer, size, format, arg)
 #define SSCANF(buffer, format, ...) sscanf(buffer, format, __VA_ARGS__)
 #define STRTOK(string, delimiter, context) strtok(string, delimiter); dump((void *) &context)
 #define STRCPY(destination, size, source) strcpy(destination, source)
-- 
2.43.0


From 3e3cc47ae7ba6bf676b5a4970dda55843b207630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:29 +0000
Subject: [PATCH 13/77] fix: stay inside the buffers when decoding truncated or
 over padded base 64

---
 src/viriatum_commons/encoding/base_64.c | 28 ++++++++++++-------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/viriatum_commons/encoding/base_64.c b/src/viriatum_commons/encoding/base_64.c
index 4913570..062f2ab 100644
--- a/src/viriatum_commons/encoding/base_64.c
+++ b/src/viriatum_commons/encoding/base_64.c
@@ -108,7 +108,8 @@ size_t calculate_decoded_buffer_length_base64(size_t encoded_buffer_length, size
     size_t decoded_buffer_length;
 
     /* calculates the decoded buffer length */
-    decoded_buffer_length = (encoded_buffer_length / 4 * 3) - padding_count;
+    decoded_buffer_length = encoded_buffer_length / 4 * 3;
+    decoded_buffer_length -= decoded_buffer_length > padding_count ? padding_count : decoded_buffer_length;
 
     /* returns the decoded buffer length */
     return decoded_buffer_length;
@@ -211,17 +212,12 @@ ERROR_CODE _decode_base64(
     /* allocates space for the partial numbers */
     unsigned char number0, number1, number2;
 
-    /* calculates the valid buffer length, defaulting to
-    zero in case the value "becomes" negative */
-    size_t valid_buffer_length = buffer_length > padding_count ?\
-        buffer_length - padding_count : 0;
-
     /* starts the buffer index */
     buffer_index = 0;
 
     /* increments over the length of the encoded buffer,
     should read four characters at a time */
-    for(index = 0; index < encoded_buffer_length; index += 4) {
+    for(index = 0; index + 4 <= encoded_buffer_length; index += 4) {
         /* retrieves the number resulting from the concatenation of the 24 bits */
         number = (_lookup_fast_base64(encoded_buffer[index]) << 18) + (_lookup_fast_base64(encoded_buffer[index + 1]) << 12) +
                  (_lookup_fast_base64(encoded_buffer[index + 2]) << 6) + _lookup_fast_base64(encoded_buffer[index + 3]);
@@ -231,18 +227,21 @@ ERROR_CODE _decode_base64(
         number1 = (unsigned char) (number >> 8) & 255;
         number2 = (unsigned char) number & 255;
 
-        /* writes the first byte in the buffer */
-        buffer[buffer_index++] = number0;
+        /* in case the buffer index is still valid, must write
+        the first byte in the buffer */
+        if(buffer_index < buffer_length) {
+            buffer[buffer_index++] = number0;
+        }
 
         /* in case the buffer index is still valid, must write
         the second byte in the buffer */
-        if(buffer_index <= valid_buffer_length) {
+        if(buffer_index < buffer_length) {
             buffer[buffer_index++] = number1;
         }
 
         /* in case the buffer index is still valid, must write
         the third byte in the buffer */
-        if(buffer_index <= valid_buffer_length) {
+        if(buffer_index < buffer_length) {
             buffer[buffer_index++] = number2;
         }
     }
@@ -295,10 +294,11 @@ unsigned int _get_padding_count(unsigned char *encoded_buffer, size_t encoded_bu
     /* allocates the padding count */
     int padding_count = 0;
 
-    /* iterates over the encoded buffer */
-    for(index = (unsigned int) encoded_buffer_length - 1; index > 0 ; index--) {
+    /* iterates over the (at most two) padding characters
+    at the end of the last group of the encoded buffer */
+    for(index = 0; index < 2 && index < encoded_buffer_length; index++) {
         /* retireve the current value */
-        current_value = encoded_buffer[index];
+        current_value = encoded_buffer[encoded_buffer_length - index - 1];
 
         /* in case the current value is not a padding character */
         if(current_value != PADDING_BASE_64) {
-- 
2.43.0


From b066aa4da619a7badbda6b93c6dd8eee516c1a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:29 +0000
Subject: [PATCH 14/77] fix: terminate the decoded string on a truncated
 percent escape

---
 src/viriatum_commons/encoding/percent.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/encoding/percent.c b/src/viriatum_commons/encoding/percent.c
index 77cb449..7da7868 100644
--- a/src/viriatum_commons/encoding/percent.c
+++ b/src/viriatum_commons/encoding/percent.c
@@ -99,14 +99,17 @@ ERROR_CODE decode_percent(unsigned char *buffer, size_t length, unsigned char *_
         /* in case the current pointer value refers a value
         that is the start character for a special value */
         if(*pointer == '%') {
-            if(pointer[1] && pointer[2]) {
+            if(length - (size_t) (pointer - buffer) > 2 && pointer[1] && pointer[2]) {
                 /* converts the character using the hexadecimal value
                 from it and then increments the current buffer pointer
                 by a value of two (buffer advancing) */
                 *__buffer++ = from_hex(pointer[1]) << 4 | from_hex(pointer[2]);
                 pointer += 2;
             } else {
-                /* raises an error */
+                /* closes the (partially) decoded buffer so that it's
+                still a valid string and then raises an error */
+                *__buffer = '\0';
+                *length_pointer = __buffer - _buffer;
                 RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem decoding URL string");
             }
         }
-- 
2.43.0


From 9aeee127d58151870ef346cff36b03c0d740e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:29 +0000
Subject: [PATCH 15/77] fix: read passwd files with long names, repeated names
 or no final newline

---
 src/viriatum_commons/formats/passwd.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/viriatum_commons/formats/passwd.c b/src/viriatum_commons/formats/passwd.c
index 6bedccf..bd8b978 100644
--- a/src/viriatum_commons/formats/passwd.c
+++ b/src/viriatum_commons/formats/passwd.c
@@ -52,10 +52,11 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     unsigned char *pointer;
 
     /* allocates the space for the username and for the password
-    to be parsed, note that the username is allocated in stack
-    (static memory) as it's not going to be stored in map */
-    char username[128];
+    to be parsed, together with the password that may already
+    be stored for the same username (repeated entry) */
+    char *username;
     char *password;
+    char *previous;
 
     /* creates the "final" hash map that is going to be used to
     associated a username with a password and then allocates the
@@ -67,6 +68,7 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     provided path an in case an error occurs re-raises it */
     return_value = read_file(file_path, &buffer, &size);
     if(IS_ERROR_CODE(return_value)) {
+        delete_hash_map(passwd);
         RAISE_ERROR_F(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading file %s",
@@ -79,12 +81,17 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
     mark = buffer;
     state = PASSWD_USER;
 
+    /* allocates the buffer for the username, it's never larger
+    than the complete set of contents of the file */
+    username = (char *) MALLOC(size + 1);
+
     /* iterates over the buffer contents in its range to parse
     it and populate the passwd hash map structure */
-    for(index = 0; index < size; index++) {
+    for(index = 0; index <= size; index++) {
         /* retrieves the current byte in iteration and the pointer
-        address to the current buffer position */
-        current = buffer[index];
+        address to the current buffer position, note that the end of
+        the file also ends the (last) line of it */
+        current = index == size ? '\n' : buffer[index];
         pointer = &buffer[index];
 
         /* switches over the current state to operate over the current
@@ -113,6 +120,12 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
                         memcpy(password, mark, length);
                         password[length] = '\0';
                         mark = pointer + 1;
+                        get_value_string_hash_map(
+                            passwd,
+                            (unsigned char *) username,
+                            (void **) &previous
+                        );
+                        if(previous != NULL) { FREE(previous); }
                         set_value_string_hash_map(
                             passwd,
                             (unsigned char *) username,
@@ -138,6 +151,7 @@ ERROR_CODE process_passwd_file(char *file_path, struct hash_map_t **passwd_point
 
     /* releases the buffer with the file contents used during
     the parsing of the passwd file (avoids memory leaks) */
+    FREE(username);
     FREE(buffer);
 
     /* updates the passwd structure pointer with the currently
-- 
2.43.0


From 86f2abca402dbc3cd4eba83717401586edf9ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:48 +0000
Subject: [PATCH 16/77] fix: release the file on a short read and fail when it
 can not be written

---
 src/viriatum_commons/io/file.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum_commons/io/file.c b/src/viriatum_commons/io/file.c
index 0a1e0a3..00aa9eb 100644
--- a/src/viriatum_commons/io/file.c
+++ b/src/viriatum_commons/io/file.c
@@ -101,6 +101,8 @@ ERROR_CODE read_file(char *file_path, unsigned char **buffer_pointer, size_t *fi
     /* in case the number of read bytes is not the
     same as the total bytes in file (error) */
     if(number_bytes != file_size) {
+        fclose(file);
+        FREE(file_buffer);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading from file"
@@ -131,6 +133,12 @@ ERROR_CODE write_file(char *file_path, unsigned char *buffer, size_t buffer_size
     from the provided buffer into it and closes the file to avoid
     any memory leaks */
     FOPEN(&file, file_path, "wb");
+    if(file == NULL) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem loading file"
+        );
+    }
     fwrite(buffer, sizeof(char), buffer_size, file);
     fclose(file);
 
-- 
2.43.0


From a237553986d183cac16981dbb83ac058f858583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 17/77] fix: refuse an authorization that can not be verified

---
 src/viriatum/http/http_util.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 1d4eeb0..62610ce 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -544,7 +544,13 @@ ERROR_CODE log_http_request(char *host, char *identity, char *user, char *method
 }
 
 ERROR_CODE auth_http(char *auth_file, char *authorization, unsigned char *result) {
-    unsigned char is_default = strcmp(auth_file, "$default") == 0 ? TRUE : FALSE;
+    unsigned char is_default;
+
+    /* the authorization is refused until proven otherwise, so that a
+    value that can not be verified is never considered to be valid */
+    *result = FALSE;
+    if(auth_file == NULL) { RAISE_NO_ERROR; }
+    is_default = strcmp(auth_file, "$default") == 0 ? TRUE : FALSE;
     if(is_default) { auth_default_http(auth_file, authorization, result); }
     else { auth_file_http(auth_file, authorization, result); }
     RAISE_NO_ERROR;
@@ -630,6 +636,16 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     username_size = password_pointer - authorization_d - 1;
     password_size = authorization_d + authorization_size - password_pointer;
 
+    /* in case any of the values does not fit in the internal
+    buffers it's not possible to verify them (invalid) */
+    if(username_size >= sizeof(username) || password_size >= sizeof(password)) {
+        FREE(authorization_d);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Authorization value too long"
+        );
+    }
+
     /* copies both the username and the password values to
     the apropriate internal buffers (to be used in comparision) */
     memcpy(username, authorization_d, username_size);
@@ -640,7 +656,14 @@ ERROR_CODE auth_file_http(char *auth_file, char *authorization, unsigned char *r
     /* processes the passwd file using the provided file path
     for it, this is an expensive io driven operation, and must
     be used wth care */
-    process_passwd_file(auth_file, &passwd);
+    return_value = process_passwd_file(auth_file, &passwd);
+    if(IS_ERROR_CODE(return_value)) {
+        FREE(authorization_d);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem processing the passwd file"
+        );
+    }
 
     /* retrieves the password verification value for the
     retrieved username and in case it's valid compares it
-- 
2.43.0


From 889cdc8d329ad99d8a7bac44af49bd077a829eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:27 +0000
Subject: [PATCH 18/77] fix: serve exactly the requested range of bytes of a
 file

---
 src/viriatum/handlers/handler_file.c |  14 ++--
 src/viriatum/http/http_util.c        | 100 +++++++++++----------------
 2 files changed, 46 insertions(+), 68 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index f68fc89..a4930a4 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -789,18 +789,16 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
         );
     }
     /* in case the range value is set for the current file request
-    must calculate the range and retrive the associated file chunk */
-    else if(handler_file_context->range_status == 2) {
-        /* retrieves the initial and final bytes for the requested
-        range, the final range is set in accordance with the file
-        size that is provided */
-        get_http_range_limits(
+    must calculate the range and retrive the associated file chunk, the
+    final range is set in accordance with the file size that is provided,
+    a range that can not be satisfied is ignored (complete file served) */
+    else if(handler_file_context->range_status == 2 &&\
+        !IS_ERROR_CODE(get_http_range_limits(
             handler_file_context->range,
             &handler_file_context->initial_byte,
             &handler_file_context->final_byte,
             file_size
-        );
-
+        ))) {
         /* writes the HTTP static headers to the response indicating
         that only a part of the file is going to be retrieved, then
         writes also the content range header indicating which bytes
diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index 62610ce..b2bcc95 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -427,75 +427,55 @@ ERROR_CODE write_http_error_a(
 }
 
 ERROR_CODE get_http_range_limits(unsigned char *range, size_t *initial_byte, size_t *final_byte, size_t size) {
-    /* allocates space for the byte to be used in the iteration,
-    for the mark value and for the iteration index counter */
-    char byte;
-    char *start;
+    /* allocates space for the pointers to be used in the parsing
+    of the range and for the values of the limits in it */
+    char *pointer = (char *) range;
     char *end;
-    size_t mark;
-    size_t index;
-
-    /* creates the inital and final local values and starts them
-    at the invalid (unset) values (intial state) */
-    long long initial_byte_v = -1;
-    long long final_byte_v = -1;
-
-    /* retrieves the size of the range string using the normal
-    length if a string function */
-    size_t range_s = strlen((char *) range);
-
-    /* initializes the mark value with a zero indicating that the
-    equals separator may not be found (avoids critical problems) */
-    mark = 0;
-
-    /* iterates over the range string character values to try to
-    find the various key values in it from the byte */
-    for(index = 0; index < range_s; index++) {
-        /* retrieves the current byte in iteration and runs the
-        switch testing against it */
-        byte = range[index];
-        switch(byte) {
-            case '=':
-                mark = index + 1;
-                break;
-
-            case '-':
-                if(index == 0) { initial_byte_v = 0; }
-                else {
-                    start = (char *) &range[mark];
-                    end = (char *) &range[index - 1];
-                    initial_byte_v = (long long) STROULL(start, &end, 10);
-                }
-                mark = index + 1;
-                break;
+    unsigned long long initial_byte_v;
+    unsigned long long final_byte_v;
 
-            case '\0':
-            case ',':
-                if(index == mark) { final_byte_v = size - 1; }
-                else {
-                    start = (char *) &range[mark];
-                    end = (char *) &range[index - 1];
-                    initial_byte_v = (long long) STROULL(start, &end, 10);
-                }
-                break;
+    /* only a single range of bytes is supported and there's no
+    range that may be satisfied by an empty resource */
+    if(strncmp(pointer, "bytes=", 6) != 0 || size == 0) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Range not supported");
+    }
+    pointer += 6;
+
+    /* in case the initial byte is not defined the range refers
+    the last bytes of the resource (suffix range) */
+    if(*pointer == '-') {
+        pointer++;
+        final_byte_v = STROULL(pointer, &end, 10);
+        if(!isdigit((unsigned char) *pointer) || final_byte_v == 0) { end = pointer - 1; }
+        initial_byte_v = final_byte_v >= size ? 0 : size - final_byte_v;
+        final_byte_v = size - 1;
+    }
+    /* otherwise the initial byte must be defined and the final byte
+    defaults to the last one of the resource */
+    else {
+        initial_byte_v = STROULL(pointer, &end, 10);
+        if(!isdigit((unsigned char) *pointer) || *end != '-') {
+            RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Range not valid");
         }
+        pointer = end + 1;
+        final_byte_v = size - 1;
+        end = pointer;
+        if(isdigit((unsigned char) *pointer)) { final_byte_v = STROULL(pointer, &end, 10); }
+        if(final_byte_v < initial_byte_v) { end = pointer - 1; }
+        if(final_byte_v >= size) { final_byte_v = size - 1; }
     }
 
-    /* in case the final byte value hasn't been already
-    set time to update its value with the final byte */
-    if(final_byte_v == -1) {
-        if(index == mark) { final_byte_v = size - 1; }
-        else {
-            start = (char *) &range[mark];
-            end = (char *) &range[index - 1];
-            final_byte_v = (long long) STROULL(start, &end, 10);
-        }
+    /* skips the trailing spaces and verifies that the complete range
+    has been parsed and that it refers some of the resource's bytes */
+    while(*end == ' ' || *end == '\t') { end++; }
+    if(*end != '\0' || initial_byte_v >= size) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Range not valid");
     }
 
     /* updates both the initial and the final byte pointer
     references with the appropriate values */
-    *initial_byte = initial_byte_v > 0 ? (size_t) initial_byte_v : 0;
-    *final_byte = final_byte_v > 0 ? (size_t) final_byte_v : 0;
+    *initial_byte = (size_t) initial_byte_v;
+    *final_byte = (size_t) final_byte_v;
 
     /* raises no error as both the initial and the final
     byte values have been computed with success */
-- 
2.43.0


From 51e33de438c2822ed6204b7671643eda8debb83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 19/77] fix: serve only files contained in the base path and
 never overrun the request fields

---
 src/viriatum/handlers/handler_file.c | 270 +++++++++++++++------------
 src/viriatum/handlers/handler_file.h |  16 +-
 2 files changed, 156 insertions(+), 130 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index a4930a4..5db03de 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -70,6 +70,10 @@ ERROR_CODE create_handler_file_context(struct handler_file_context_t **handler_f
     struct handler_file_context_t *handler_file_context = (struct handler_file_context_t *) MALLOC(handler_file_context_size);
 
     /* sets the handler file default values */
+    handler_file_context->url[0] = '\0';
+    handler_file_context->url_d[0] = '\0';
+    handler_file_context->file_path_d[0] = '\0';
+    handler_file_context->invalid = TRUE;
     handler_file_context->base_path = NULL;
     handler_file_context->auth_basic = NULL;
     handler_file_context->auth_file = NULL;
@@ -253,14 +257,6 @@ ERROR_CODE message_begin_callback_handler_file(struct http_parser_t *http_parser
 }
 
 ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
-    size_t decoded_size;
-
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
-
     /* retrieves the handler file context from the HTTP parser */
     struct handler_file_context_t *handler_file_context =\
         (struct handler_file_context_t *) http_parser->context;
@@ -270,42 +266,14 @@ ERROR_CODE url_callback_handler_file(struct http_parser_t *http_parser, const un
     char *pointer = (char *) memchr((char *) data, '?', data_size);
     size_t path_size = pointer == NULL ? data_size : pointer - (char *) data;
 
-    /* copies the memory from the data to the url and then
-    puts the end of string in the url, note that only the path
-    part of the string is used for the url */
-    memcpy(handler_file_context->url, data, path_size);
-    handler_file_context->url[path_size] = '\0';
+    /* sets the url in the context, note that only the path
+    part of the string is used for the url, and then resolves the
+    file path for it using the default base path */
+    _set_url_handler_file(handler_file_context, data, path_size);
 
     /* prints a debug message */
     V_INFO_F("%s %s\n", get_http_method_string(http_parser->method), handler_file_context->url);
 
-    /* creates the file path using the base viriatum path
-    this should be the complete absolute path */
-    file_path_size = SPRINTF(
-        (char *) handler_file_context->file_path,
-        VIRIATUM_MAX_PATH_SIZE,
-        "%s%s%s",
-        VIRIATUM_CONTENTS_PATH,
-        VIRIATUM_BASE_PATH,
-        handler_file_context->url
-    );
-
-    /* decodes the url and file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance the resulting
-    value is stored as a simple string in utf-8 encoding */
-    decode_percent(
-        handler_file_context->url,
-        path_size,
-        handler_file_context->url_d,
-        &decoded_size
-    );
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
-
     /* raise no error */
     RAISE_NO_ERROR;
 }
@@ -373,24 +341,28 @@ ERROR_CODE header_value_callback_handler_file(struct http_parser_t *http_parser,
     to undefined no parsing will exist */
     switch(handler_file_context->next_header) {
         case ETAG:
-            memcpy(handler_file_context->etag, data, 10);
-            handler_file_context->etag[10] = '\0';
+            data_size = data_size < 10 ? data_size : 10;
+            memcpy(handler_file_context->etag, data, data_size);
+            handler_file_context->etag[data_size] = '\0';
             handler_file_context->etag_status = 2;
             break;
 
         case CACHE_CONTROL:
+            if(data_size >= sizeof(handler_file_context->cache_control)) { break; }
             memcpy(handler_file_context->cache_control, data, data_size);
             handler_file_context->cache_control[data_size] = '\0';
             handler_file_context->cache_control_status = 2;
             break;
 
         case AUTHORIZATION:
+            if(data_size >= sizeof(handler_file_context->authorization)) { break; }
             memcpy(handler_file_context->authorization, data, data_size);
             handler_file_context->authorization[data_size] = '\0';
             handler_file_context->authorization_status = 2;
             break;
 
         case RANGE:
+            if(data_size >= sizeof(handler_file_context->range)) { break; }
             memcpy(handler_file_context->range, data, data_size);
             handler_file_context->range[data_size] = '\0';
             handler_file_context->range_status = 2;
@@ -437,7 +409,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     /* allocates space for the new location value for
     redirect request cases and for the path to the
     template (for directory listing) */
-    unsigned char location[VIRIATUM_MAX_PATH_SIZE];
+    unsigned char location[VIRIATUM_MAX_URL_SIZE + 1];
     unsigned char template_path[VIRIATUM_MAX_PATH_SIZE];
 
     /* allocates space for the computation of the time
@@ -459,7 +431,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     /* allocates space for the size of the url string to
     be calculates and for the folder path variable */
     size_t url_size;
-    char folder_path[VIRIATUM_MAX_PATH_SIZE];
+    char folder_path[VIRIATUM_MAX_URL_SIZE];
 
     /* allocates space for the temporary buffer that will hold
     the description of the error to be sent to the client in case
@@ -476,7 +448,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
 
     /* allocates the headers buffer (it will be releases automatically by the writter)
     it need to be allocated in the heap so it gets throught the request cycle */
-    char *headers_buffer = MALLOC(VIRIATUM_HTTP_SIZE);
+    char *headers_buffer = MALLOC(VIRIATUM_HTTP_SIZE + VIRIATUM_MAX_URL_SIZE);
 
     /* retrieves the handler file context from the HTTP parser and uses
     it to retrieve the respective flags value */
@@ -504,7 +476,9 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     http_connection->acquire(http_connection);
 
     /* checks if the path being request is in fact a directory */
-    is_directory_file((char *) handler_file_context->file_path_d, &is_directory);
+    if(!handler_file_context->invalid) {
+        is_directory_file((char *) handler_file_context->file_path_d, &is_directory);
+    }
 
     /* in case the auth basic value is set in the current file
     context must proceed with the authentication process for
@@ -612,6 +586,9 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             delete_linked_list(directory_entries_map);
         }
     }
+    /* in case the url could not be resolved into a file path
+    there's no file to be served (file not found) */
+    else if(handler_file_context->invalid) { error_code = RUNTIME_EXCEPTION_ERROR_CODE; }
     /* otherwise the file path must refered a "normal" file path and
     it must be checked */
     else {
@@ -717,7 +694,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
         );
         SPRINTF(
             &headers_buffer[count],
-            VIRIATUM_HTTP_SIZE - count,
+            VIRIATUM_HTTP_SIZE + VIRIATUM_MAX_URL_SIZE - count,
             CONTENT_LENGTH_H ": 0\r\n"
             LOCATION_H ": %s\r\n\r\n",
             location
@@ -899,86 +876,35 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
 }
 
 ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
-    size_t decoded_size;
-
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
-
     /* retrieves the handler file context from the HTTP parser
     and uses it to retrieve the reference to the base path in context */
     struct handler_file_context_t *handler_file_context =\
         (struct handler_file_context_t *) http_parser->context;
     unsigned char *base_path = handler_file_context->base_path;
 
-    /* copies the memory from the data to the url and then
-    puts the end of string in the url, note that only the path
-    part of the string is used for the url */
-    memcpy(handler_file_context->url, data, data_size);
-    handler_file_context->url[data_size] = '\0';
+    /* sets the url in the context, note that only the path
+    part of the string is used for the url, and then resolves the
+    file path for it using the default base path */
+    _set_url_handler_file(handler_file_context, data, data_size);
 
     /* prints a debug message */
     V_INFO_F("%s %s\n", get_http_method_string(http_parser->method), handler_file_context->url);
 
-    /* in case a base path is not defined the contant values
-    for the contents and base path must be used */
-    if(base_path == NULL) {
-        /* creates the file path using the base viriatum path
-        this should be the complete absolute path */
-        file_path_size = SPRINTF(
-            (char *) handler_file_context->file_path,
-            VIRIATUM_MAX_PATH_SIZE,
-            "%s%s%s",
-            VIRIATUM_CONTENTS_PATH,
-            VIRIATUM_BASE_PATH,
-            handler_file_context->url
-        );
-    }
-    /* otherwise the currently set base path is used instead for
+    /* in case a base path is defined it's used instead for
     the resolution of the file path */
-    else {
-        /* creates the file path using the base viriatum path
-        this should be the complete absolute path */
-        file_path_size = SPRINTF(
-            (char *) handler_file_context->file_path,
-            VIRIATUM_MAX_PATH_SIZE,
-            "%s%s",
-            base_path,
+    if(base_path != NULL) {
+        _set_path_handler_file(
+            handler_file_context,
+            (char *) base_path,
             handler_file_context->url
         );
     }
 
-    /* decodes the url and file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance the resulting
-    value is stored as a simple string in utf-8 encoding */
-    decode_percent(
-        handler_file_context->url,
-        data_size,
-        handler_file_context->url_d,
-        &decoded_size
-    );
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
-
     /* raise no error */
     RAISE_NO_ERROR;
 }
 
 ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, size_t index, size_t offset) {
-    /* allocates memory for the variable that will hold the
-    size of the decoded file path */
-    size_t decoded_size;
-
-    /* the complete size of the string that contains the file
-    path "calculated" from the url */
-    size_t file_path_size;
-
     /* allocates space for the partial url, resulting from the
     remaining part from the matching of the location */
     unsigned char *partial_url;
@@ -1009,30 +935,25 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
     not returns immediately as no file path changing is required */
     if(location->base_path == NULL) { RAISE_NO_ERROR; }
 
+    /* in case the offset is not part of the url no file path
+    may be resolved using the location */
+    if(offset > strlen((char *) handler_file_context->url)) {
+        handler_file_context->invalid = TRUE;
+        RAISE_NO_ERROR;
+    }
+
     /* retrieves the partial url match by "removing" the initial part
     of the url in context */
     partial_url = &handler_file_context->url[offset];
 
-    /* creates the file path using the base viriatum path
-    this should be the complete absolute path, note that
-    only the partial url is used (offset from location) */
-    file_path_size = SPRINTF(
-        (char *) handler_file_context->file_path,
-        VIRIATUM_MAX_PATH_SIZE,
-        "%s%s",
-        location->base_path,
+    /* creates the file path using the base path of the location,
+    note that only the partial url is used (offset from location) */
+    _set_path_handler_file(
+        handler_file_context,
+        (char *) location->base_path,
         partial_url
     );
 
-    /* decodes the file path for the percent encoding, this method
-    uses constant (pre-allocated) memory for fast performance */
-    decode_percent(
-        handler_file_context->file_path,
-        file_path_size,
-        handler_file_context->file_path_d,
-        &decoded_size
-    );
-
     /* raise no error */
     RAISE_NO_ERROR;
 }
@@ -1042,6 +963,107 @@ ERROR_CODE virtual_url_callback_handler_file(struct http_parser_t *http_parser,
     RAISE_NO_ERROR;
 }
 
+ERROR_CODE _set_url_handler_file(struct handler_file_context_t *handler_file_context, const unsigned char *data, size_t data_size) {
+    /* allocates memory for the variable that will hold the
+    size of the decoded url */
+    size_t decoded_size;
+
+    /* starts the url as an empty and invalid one, this is the
+    final value in case it's larger than what is supported */
+    handler_file_context->url[0] = '\0';
+    handler_file_context->url_d[0] = '\0';
+    handler_file_context->invalid = TRUE;
+    if(data_size >= VIRIATUM_MAX_URL_SIZE) { RAISE_NO_ERROR; }
+
+    /* copies the memory from the data to the url and then
+    puts the end of string in the url, the url is then percent
+    decoded into the constant (pre-allocated) memory */
+    memcpy(handler_file_context->url, data, data_size);
+    handler_file_context->url[data_size] = '\0';
+    decode_percent(
+        handler_file_context->url,
+        data_size,
+        handler_file_context->url_d,
+        &decoded_size
+    );
+
+    /* resolves the complete url using the default base path */
+    return _set_path_handler_file(
+        handler_file_context,
+        NULL,
+        handler_file_context->url
+    );
+}
+
+ERROR_CODE _set_path_handler_file(struct handler_file_context_t *handler_file_context, const char *base_path, const unsigned char *path) {
+    /* allocates space for the decoded version of the path, and for
+    the size of both the decoded path and of the resulting file path */
+    unsigned char path_d[VIRIATUM_MAX_URL_SIZE];
+    size_t decoded_size;
+    int file_path_size;
+    ERROR_CODE return_value;
+
+    /* the path is considered to be invalid until the moment it
+    is completely resolved, an invalid path refers no file */
+    handler_file_context->invalid = TRUE;
+    handler_file_context->file_path_d[0] = '\0';
+
+    /* decodes the path and verifies that it's completely decoded,
+    that contains no end of string and that it's not able to refer
+    anything that is not contained in the base path */
+    return_value = decode_percent(
+        (unsigned char *) path,
+        strlen((char *) path),
+        path_d,
+        &decoded_size
+    );
+    if(IS_ERROR_CODE(return_value)) { RAISE_NO_ERROR; }
+    if(strlen((char *) path_d) != decoded_size) { RAISE_NO_ERROR; }
+    if(!_is_contained_handler_file(path_d)) { RAISE_NO_ERROR; }
+
+    /* creates the file path from the base path and from the decoded
+    path, making sure that there's a separator between both */
+    file_path_size = SPRINTF(
+        (char *) handler_file_context->file_path_d,
+        VIRIATUM_MAX_PATH_SIZE,
+        "%s%s%s%s",
+        base_path == NULL ? VIRIATUM_CONTENTS_PATH : base_path,
+        base_path == NULL ? VIRIATUM_BASE_PATH : "",
+        path_d[0] == '\0' || path_d[0] == '/' ? "" : "/",
+        path_d
+    );
+    handler_file_context->invalid =\
+        file_path_size < 0 || file_path_size >= VIRIATUM_MAX_PATH_SIZE;
+
+    /* raises no error */
+    RAISE_NO_ERROR;
+}
+
+unsigned char _is_contained_handler_file(const unsigned char *path) {
+    /* allocates space for the current depth in the path
+    and for the size of the current segment of it */
+    long depth = 0;
+    size_t size;
+
+    /* iterates over the complete set of segments in the path
+    to verify that none of them goes above the initial one */
+    while(*path != '\0') {
+#ifdef VIRIATUM_PLATFORM_WIN32
+        size = strcspn((char *) path, "/\\");
+#else
+        size = strcspn((char *) path, "/");
+#endif
+        if(size == 2 && path[0] == '.' && path[1] == '.') { depth--; }
+        else if(size > 0 && !(size == 1 && path[0] == '.')) { depth++; }
+        if(depth < 0) { return FALSE; }
+        path += size;
+        if(*path != '\0') { path++; }
+    }
+
+    /* the path is contained as no segment goes above it */
+    return TRUE;
+}
+
 ERROR_CODE _set_http_parser_handler_file(struct http_parser_t *http_parser) {
     /* allocates space for the handler file context */
     struct handler_file_context_t *handler_file_context;
diff --git a/src/viriatum/handlers/handler_file.h b/src/viriatum/handlers/handler_file.h
index 4c12f43..cfebd73 100644
--- a/src/viriatum/handlers/handler_file.h
+++ b/src/viriatum/handlers/handler_file.h
@@ -111,18 +111,19 @@ typedef struct handler_file_context_t {
      */
     unsigned char url_d[VIRIATUM_MAX_URL_SIZE];
 
-    /**
-     * The path to the file to be handled by
-     * the current file request.
-     */
-    unsigned char file_path[VIRIATUM_MAX_PATH_SIZE];
-
     /**
      * The url (percent) decoded version of the path
      * to the file to be handled by the current request.
      */
     unsigned char file_path_d[VIRIATUM_MAX_PATH_SIZE];
 
+    /**
+     * If the url in the context may not be resolved into a
+     * file path (eg: too long or outside of the base path)
+     * in such case no file exists for the request.
+     */
+    unsigned char invalid;
+
     /**
      * The base path of the directory to be used for
      * the contruction of the full path for the file
@@ -271,6 +272,9 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
 ERROR_CODE path_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
 ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, size_t index, size_t offset);
 ERROR_CODE virtual_url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
+ERROR_CODE _set_url_handler_file(struct handler_file_context_t *handler_file_context, const unsigned char *data, size_t data_size);
+ERROR_CODE _set_path_handler_file(struct handler_file_context_t *handler_file_context, const char *base_path, const unsigned char *path);
+unsigned char _is_contained_handler_file(const unsigned char *path);
 ERROR_CODE _set_http_parser_handler_file(struct http_parser_t *http_parser);
 ERROR_CODE _unset_http_parser_handler_file(struct http_parser_t *http_parser);
 ERROR_CODE _reset_http_parser_handler_file(struct http_parser_t *http_parser);
-- 
2.43.0


From 74968afc1810ad2f0983adeae87b3cd351204e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 20/77] fix: close the connection when the contents of a file
 can not be completely sent

---
 src/viriatum/handlers/handler_file.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 5db03de..520d699 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -1218,8 +1218,13 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
     /* in case the file is not defined (should be opened) */
     if(file == NULL) {
         /* opens the file in the most secure manner making sure
-        that the proper encoding is set for the path */
-        open_file((char *) file_path, "rb", &file);
+        that the proper encoding is set for the path, in case it's
+        not possible to open it anymore the announced contents can't
+        be sent and so the connection must be closed */
+        if(IS_ERROR_CODE(open_file((char *) file_path, "rb", &file))) {
+            connection->close_connection(connection);
+            RAISE_NO_ERROR;
+        }
 
         /* seeks to the end of the file and then to the
         beginig in order to correctly retrieve the size
@@ -1263,6 +1268,13 @@ ERROR_CODE _send_chunk_handler_file(struct connection_t *connection, struct data
             handler_file_context
         );
     }
+    /* in case there's still data remaining the file became shorter
+    than what has been announced and the connection must be closed,
+    otherwise there would be no way to find the next message */
+    else if(remaining > 0) {
+        FREE(file_buffer);
+        connection->close_connection(connection);
+    }
     /* otherwise the file "transfer" is complete and the control
     flow should proceed to the cleanup operations */
     else {
-- 
2.43.0


From b1e005016169eec143b0009bfc714763f35818c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:30 +0000
Subject: [PATCH 21/77] fix: do not send contents in the response of an head
 request

---
 src/viriatum/handlers/handler_file.c | 14 +++++++++++---
 src/viriatum/http/http_util.c        | 26 ++++++++++++++++++++++----
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 520d699..a07256c 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -428,6 +428,10 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     HTTP message processing or not */
     unsigned char keep_alive;
 
+    /* allocates space for the flag that controls if the contents
+    are part of the response (not for an head request) */
+    unsigned char is_head;
+
     /* allocates space for the size of the url string to
     be calculates and for the folder path variable */
     size_t url_size;
@@ -471,6 +475,10 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     this values is going to be used for headers generation */
     keep_alive = flags & FLAG_KEEP_ALIVE;
 
+    /* verifies if only the headers should be sent as the response,
+    an head request has never contents in its response */
+    is_head = http_parser->method == HTTP_HEAD;
+
     /* acquires the lock on the HTTP connection, this will avoids further
     messages to be processed, no parallel request handling problems */
     http_connection->acquire(http_connection);
@@ -732,7 +740,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             connection,
             (unsigned char *) headers_buffer,
             (unsigned int) strlen(headers_buffer),
-            _send_data_handler_file,
+            is_head ? _cleanup_handler_file : _send_data_handler_file,
             handler_file_context
         );
     }
@@ -809,7 +817,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             connection,
             (unsigned char *) headers_buffer,
             (unsigned int) strlen(headers_buffer),
-            _send_chunk_handler_file,
+            is_head ? _cleanup_handler_file : _send_chunk_handler_file,
             handler_file_context
         );
     }
@@ -866,7 +874,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             connection,
             (unsigned char *) headers_buffer,
             (unsigned int) strlen(headers_buffer),
-            _send_chunk_handler_file,
+            is_head ? _cleanup_handler_file : _send_chunk_handler_file,
             handler_file_context
         );
     }
diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index b2bcc95..c08a224 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -28,6 +28,21 @@
 #include "stdafx.h"
 
 #include "http_util.h"
+#include "../stream/stream.h"
+
+/**
+ * Checks if the request currently being handled in the given
+ * connection is an head one, in such case the response must
+ * contain only the headers (no body).
+ *
+ * @param connection The connection of the request.
+ * @return If the current request is an head request.
+ */
+static unsigned char is_head_http(struct connection_t *connection) {
+    struct io_connection_t *io_connection = (struct io_connection_t *) connection->lower;
+    struct http_connection_t *http_connection = (struct http_connection_t *) io_connection->lower;
+    return http_connection->http_parser->method == HTTP_HEAD;
+}
 
 size_t write_http_headers(
     struct connection_t *connection,
@@ -207,11 +222,12 @@ ERROR_CODE write_http_message(
         message
     );
 
-    /* writes both the headers to the connection, registers for the appropriate callbacks */
+    /* writes both the headers to the connection, registers for the appropriate
+    callbacks, note that the message is not part of the response for an head request */
     write_connection(
         connection,
         (unsigned char *) headers_buffer,
-        (unsigned int) strlen(headers_buffer),
+        (unsigned int) (strlen(headers_buffer) - (is_head_http(connection) ? strlen(message) : 0)),
         (connection_data_callback) callback,
         callback_parameters
     );
@@ -363,6 +379,7 @@ ERROR_CODE write_http_error_a(
         append_string_buffer(string_buffer, template_handler->string_value);
         join_string_buffer(string_buffer, &result_buffer);
         result_length = string_buffer->string_length;
+        if(is_head_http(connection)) { result_length = strlen(headers_buffer); }
         delete_string_buffer(string_buffer);
 
         /* deletes the template handler as all the processing on it
@@ -412,11 +429,12 @@ ERROR_CODE write_http_error_a(
         );
 
         /* writes both the headers to the connection, an then
-        registers for the appropriate callbacks */
+        registers for the appropriate callbacks, the description
+        is not part of the response for an head request */
         write_connection(
             connection,
             (unsigned char *) headers_buffer,
-            (unsigned int) strlen(headers_buffer),
+            (unsigned int) (strlen(headers_buffer) - (is_head_http(connection) ? strlen(_error_description) : 0)),
             (connection_data_callback) callback,
             callback_parameters
         );
-- 
2.43.0


From 131a12232509eed433a635d27e9f27c9542a7344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:30 +0000
Subject: [PATCH 22/77] fix: send the authentication challenge also when no
 template is used

---
 src/viriatum/http/http_util.c | 44 ++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/viriatum/http/http_util.c b/src/viriatum/http/http_util.c
index c08a224..99fa039 100644
--- a/src/viriatum/http/http_util.c
+++ b/src/viriatum/http/http_util.c
@@ -414,19 +414,37 @@ ERROR_CODE write_http_error_a(
         );
 
         /* writes the HTTP static headers to the response and
-        then writes the error description itself */
-        write_http_headers_m(
-            connection,
-            headers_buffer,
-            size,
-            version,
-            error_code,
-            error_message,
-            keep_alive,
-            strlen(_error_description),
-            NO_CACHE,
-            _error_description
-        );
+        then writes the error description itself, the realm is also
+        part of the headers in case it's defined */
+        if(realm == NULL) {
+            write_http_headers_m(
+                connection,
+                headers_buffer,
+                size,
+                version,
+                error_code,
+                error_message,
+                keep_alive,
+                strlen(_error_description),
+                NO_CACHE,
+                _error_description
+            );
+        } else {
+            result_length = write_http_headers_a(
+                connection,
+                headers_buffer,
+                size,
+                version,
+                error_code,
+                error_message,
+                keep_alive,
+                strlen(_error_description),
+                NO_CACHE,
+                realm,
+                TRUE
+            );
+            memcpy(&headers_buffer[result_length], _error_description, strlen(_error_description) + 1);
+        }
 
         /* writes both the headers to the connection, an then
         registers for the appropriate callbacks, the description
-- 
2.43.0


From e5e4880ecba01df6dfc6869bf9e04fe9ba14db52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 23/77] fix: parse the chunks of a request instead of aborting
 on the first one

---
 src/viriatum/http/http_parser.c | 1 -
 src/viriatum/http/http_parser.h | 8 ++++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index d24946e..dd2ea5f 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1621,7 +1621,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                 break;
 
             case STATE_CHUNK_SIZE_START:
-                assert(read_count == 1);
                 assert(http_parser->flags & FLAG_CHUNKED);
 
                 unhex_value = unhex[byte];
diff --git a/src/viriatum/http/http_parser.h b/src/viriatum/http/http_parser.h
index 9314338..16f131e 100644
--- a/src/viriatum/http/http_parser.h
+++ b/src/viriatum/http/http_parser.h
@@ -184,6 +184,14 @@ static const char unhex[256] = {
     -1, 10, 11, 12, 13, 14, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, 10, 11, 12, 13, 14, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
+    -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
     -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1
 };
 
-- 
2.43.0


From 0a06f0c19e6ec108994a9e009e5bb893f69a8d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 24/77] fix: reject a message length that can not be
 represented

---
 src/viriatum/http/http_parser.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index dd2ea5f..2ec7a91 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1387,6 +1387,11 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                             goto error;
                         }
 
+                        /* a length that can't be represented is not valid */
+                        if(http_parser->content_length > (INT_MAX - (byte - '0')) / 10) {
+                            goto error;
+                        }
+
                         http_parser->content_length *= 10;
                         http_parser->content_length += byte - '0';
 
@@ -1660,6 +1665,11 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                     goto error;
                 }
 
+                /* a length that can't be represented is not valid */
+                if(http_parser->content_length > (INT_MAX - unhex_value) / 16) {
+                    goto error;
+                }
+
                 http_parser->content_length *= 16;
                 http_parser->content_length += unhex_value;
 
-- 
2.43.0


From a27efec258043aced5f14d693f45e4bb41cdf408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:51 +0000
Subject: [PATCH 25/77] fix: keep parsing a connection in which an upgrade was
 asked for and not done

---
 src/viriatum/http/http_parser.c | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 2ec7a91..6c10655 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1517,9 +1517,8 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
                     read_count = 0;
 
-                    if(http_parser->flags & FLAG_UPGRADE || http_parser->method == HTTP_CONNECT) {
-                        http_parser->upgrade = 1;
-                    }
+                    http_parser->upgrade =\
+                        http_parser->flags & FLAG_UPGRADE || http_parser->method == HTTP_CONNECT;
 
                     /* here we call the headers_complete callback, this is somewhat
                     * different than other callbacks because if the user returns 1, we
@@ -1542,13 +1541,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         }
                     }
 
-                    /* Exit, the rest of the connect is in a different protocol. */
-                    if(http_parser->upgrade) {
-                        HTTP_CALLBACK(message_complete);
-
-                        return (int) (pointer - data) + 1;
-                    }
-
                     if(http_parser->flags & FLAG_SKIPBODY) {
                         HTTP_CALLBACK(message_complete);
                         state = NEW_MESSAGE();
-- 
2.43.0


From 71bc2b8744418f057fc2ed37b863f241e845ce8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 26/77] fix: keep the tokens being parsed valid when the
 connection buffer moves and bound its size

---
 src/viriatum/stream/stream_http.c | 112 ++++++++++++++----------------
 1 file changed, 53 insertions(+), 59 deletions(-)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 9a71ab9..7b7b2ca 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -176,11 +176,11 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     data parsing iteration */
     int processed_size;
 
-    /* allocates the space to be used for the the calculus
-    arround the new buffer sizes, both for the offset and the
-    content length strategies */
-    size_t size_offset;
-    size_t size_length;
+    /* allocates the space to be used for the calculus of the
+    part of the buffer that is still required */
+    size_t offset;
+    size_t mark_offset;
+    size_t index;
 
     /* allocates the reference to the pointer to current
     buffer position to be used in writing (initial position) */
@@ -200,11 +200,13 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     struct connection_t *connection = io_connection->connection;
     struct http_connection_t *http_connection = (struct http_connection_t *) io_connection->lower;
 
-    /* retrieves the content length value from the parser associated
-    with the current connection, this value is maitained accross multiple
-    parsing loops and is not considered transient, the value remains at the
-    initial zero value until the proper header is parsed */
-    size_t content_length = http_connection->http_parser->_content_length;
+    /* the marks of the parser that may be pointing to the token in the
+    buffer that is currently being parsed (incomplete token) */
+    unsigned char **marks[3] = {
+        &http_connection->http_parser->header_field_mark,
+        &http_connection->http_parser->header_value_mark,
+        &http_connection->http_parser->url_mark
+    };
 
     /* in case no HTTP connection buffer is currently set, time to start
     a new one from the provided buffer (fast access) */
@@ -216,18 +218,41 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
     space is not enough must reallocate the buffer (increment size) in order
     to hold the required space for the new contents */
     else if(http_connection->buffer_offset + buffer_size > http_connection->buffer_size) {
-        /* creates two strategies for the reallocation of the buffer, one based on the
-        minimal size required for the handling the memory copy (offset strategy) and
-        another that aims at pre-allocating size for the complete message buffer (content
-        length strategy) the maximum value of both is selected as the new buffer size
-        and is used for the reallocation of the buffer */
-        size_offset = http_connection->buffer_offset + buffer_size;
-        size_length = http_connection->buffer_size + content_length;
-        http_connection->buffer_size = size_length > size_offset ? size_length : size_offset;
-        http_connection->buffer = REALLOC(
-            (void *) http_connection->buffer,
-            http_connection->buffer_size
+        /* calculates the offset to the first byte of the buffer that is still
+        required, this is the start of the token being parsed (in case there's
+        one) or the position of the next byte to be parsed */
+        offset = http_connection->read_offset;
+        for(index = 0; index < sizeof(marks) / sizeof(marks[0]); index++) {
+            if(*marks[index] == NULL) { continue; }
+            mark_offset = *marks[index] - http_connection->buffer;
+            offset = mark_offset < offset ? mark_offset : offset;
+        }
+
+        /* moves the bytes that are still required to the start of the buffer,
+        and then in case that's not enough doubles the size of the buffer */
+        memmove(
+            http_connection->buffer,
+            http_connection->buffer + offset,
+            http_connection->buffer_offset - offset
         );
+        http_connection->buffer_offset -= offset;
+        http_connection->read_offset -= offset;
+        _buffer = http_connection->buffer;
+        if(http_connection->buffer_offset + buffer_size > http_connection->buffer_size) {
+            http_connection->buffer_size = 2 * (http_connection->buffer_offset + buffer_size);
+            http_connection->buffer = REALLOC(
+                (void *) http_connection->buffer,
+                http_connection->buffer_size
+            );
+        }
+
+        /* updates the marks of the parser so that they keep referring the
+        same byte in the new position of it */
+        for(index = 0; index < sizeof(marks) / sizeof(marks[0]); index++) {
+            if(*marks[index] == NULL) { continue; }
+            mark_offset = *marks[index] - _buffer;
+            *marks[index] = http_connection->buffer + mark_offset - offset;
+        }
     }
 
     /* retrieves the pointer reference to the current position in the
@@ -286,48 +311,17 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
         size so that the next process starts at the read offset */
         http_connection->read_offset += processed_size;
 
-        /* in case the current state in the HTTP parser is the
-        start state, the message is considered to be completly
-        parsed (new message may come after) */
-        if(http_connection->http_parser->state == STATE_START_RES) {
-            /* resets the HTTP parser state */
-            http_connection->http_parser->type = 2;
-            http_connection->http_parser->flags = 6;
-            http_connection->http_parser->state = STATE_START_REQ;
-            http_connection->http_parser->header_state = 0;
-            http_connection->http_parser->read_count = 0;
-            http_connection->http_parser->content_length = -1;
-            http_connection->http_parser->http_major = 0;
-            http_connection->http_parser->http_minor = 0;
-            http_connection->http_parser->status_code = 0;
-            http_connection->http_parser->method = 0;
-            http_connection->http_parser->upgrade = 0;
-            http_connection->http_parser->_content_length = 0;
-
-            /* resets the internal parser state values */
-            http_connection->http_parser->header_field_mark = 0;
-            http_connection->http_parser->header_value_mark = 0;
-            http_connection->http_parser->url_mark = 0;
-
-            /* in case the current HTTP connection read offset has reached
-            the buffer size it's time to reset the buffer (no more data to
-            be processed), the buffer size should come from the content length
-            value of the actual message */
-            if(http_connection->read_offset == http_connection->buffer_size) {
-                /* releases the current HTTP connection buffer and then
-                unsets the buffer from the connection and updates the size
-                of it to the initial empty value (buffer reset) */
-                FREE(http_connection->buffer);
-                http_connection->buffer = NULL;
-                http_connection->buffer_size = 0;
-                http_connection->buffer_offset = 0;
-                http_connection->read_offset = 0;
-            }
+        /* in case everything in the buffer has been processed and no token
+        in it is pending the buffer may be used again from the start of it */
+        if(http_connection->read_offset == http_connection->buffer_offset &&\
+            *marks[0] == NULL && *marks[1] == NULL && *marks[2] == NULL) {
+            http_connection->buffer_offset = 0;
+            http_connection->read_offset = 0;
         }
 
         /* in case all the data has been read from the connection
         buffer must break the loop */
-        if(http_connection->read_offset == http_connection->buffer_size) { break; }
+        if(http_connection->read_offset == http_connection->buffer_offset) { break; }
 
         /* in case all the remaining data has been processed
         no need to process more HTTP data (breaks the loop) */
-- 
2.43.0


From 93c8c9d2871663d0071f2db4438d00d8b90711a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 27/77] fix: do not touch a connection closed while its data
 was being handled

---
 src/viriatum/stream/stream_io.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 4ff8eeb..f141fa9 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -305,6 +305,10 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
                 V_DEBUG("Finished calling on data handler\n");
             }
 
+            /* in case the connection was closed by the data handler there's
+            nothing else to be read (the io connection is no longer valid) */
+            if(connection->status == STATUS_CLOSED) { RAISE_NO_ERROR; }
+
             /* resets the buffer size to the original (initial)
             position so that it can be reused, note that both
             the buffer pointer and the buffer size are reseted */
@@ -320,8 +324,6 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
             VIRIATUM_READ_SIZE,
             0
         );
-        connection->received += number_bytes;
-
         /* in case the number of bytes is zero (connection closed) */
         if(number_bytes == 0) {
             /* sets the error flag so that the connection is closed
@@ -374,6 +376,7 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
         buffer_pointer += number_bytes;
         buffer_size += number_bytes;
         total_bytes += number_bytes;
+        connection->received += number_bytes;
 
         /* in case the viriatum is set to blocking must break
         the loop, no more that one read operation is allowed */
@@ -404,7 +407,7 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
             /* in case there's data pending to be processed must flush
             it even though there was a fatal error the data must be
             correctly processed by the underlying layer */
-            if(buffer_size > 0) {
+            if(buffer_size > 0 && io_connection->on_data != NULL) {
                 V_DEBUG("Calling on data handler\n");
                 io_connection->on_data(io_connection, buffer, buffer_size);
                 V_DEBUG("Finished calling on data handler\n");
@@ -412,7 +415,7 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
 
             /* closes the connection as the error was fatal, so this is the
             best escape approach to solve the issue */
-            connection->close_connection(connection);
+            CALL_V(connection->close_connection, connection);
 
             /* breaks the switch */
             break;
@@ -486,7 +489,6 @@ ERROR_CODE write_handler_stream_io(struct connection_t *connection) {
             data->size,
             0
         );
-        connection->sent += number_bytes;
 
         /* in case there was an error receiving from the socket */
         if(SOCKET_TEST_ERROR(number_bytes)) {
@@ -535,6 +537,9 @@ ERROR_CODE write_handler_stream_io(struct connection_t *connection) {
         /* prints a debug message */
         V_DEBUG_F("Data [%d bytes] sent without errors\n", number_bytes);
 
+        /* accounts for the bytes that were sent (no error occurred) */
+        connection->sent += number_bytes;
+
         /* in case the number of bytes sent is the same as the value size
         (not all data has been sent) */
         if(number_bytes != data->size) {
-- 
2.43.0


From 4cd68d967f18e570e3a980fd4debe687d6a94fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:27 +0000
Subject: [PATCH 28/77] fix: route every spelling of a path through the same
 location and bound it

---
 src/viriatum/handlers/handler_dispatch.c | 125 ++++++++++++++++++++++-
 src/viriatum/handlers/handler_dispatch.h |   1 +
 2 files changed, 121 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index d608614..603d4c4 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -202,8 +202,19 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
     /* allocates the required space for the path and the
     base path, this is done through static allocation */
     unsigned char path[VIRIATUM_MAX_URL_SIZE];
+    unsigned char path_d[VIRIATUM_MAX_URL_SIZE];
     unsigned char base_path[VIRIATUM_MAX_URL_SIZE];
 
+    /* allocates space for the size of the decoded path and for
+    the buffer with the url as seen from the matched location */
+    size_t path_d_size;
+    unsigned char *virtual_url;
+
+    /* allocates space for the path to the contents (of the location)
+    against which the index file is going to be resolved */
+    size_t contents_offset = 0;
+    void *contents_path = NULL;
+
     /* retrieves the various connection elements and lower substrates
     fomr the parser parameters and then uses them to retrieves the handler
     and the dispath handler to be used for dispatching */
@@ -224,9 +235,18 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
 
     /* copies the memory from the data to the path (partial url),
     then puts the end of string in the path */
+    if(path_size + 128 >= VIRIATUM_MAX_URL_SIZE) {
+        /* the path (and a possible index file name) does not fit in
+        the path buffer, the dispatch error is going to be sent */
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "URL is too long");
+    }
     memcpy(path, data, path_size);
     path[path_size] = '\0';
 
+    /* converts the path into its normal form, different spellings of
+    the same path must be handled by the same location */
+    path_size = _normalize_path_handler_dispatch(path, path_size);
+
     /* sets the default handler, this is considered to be
     the fallback in case no handler is found */
     handler_name = (unsigned char *) DISPATCH_DEFAULT_HANDLER;
@@ -273,7 +293,24 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             /* creates the base path from the viriatum contents path
             and the current provided path and then runs the file existence
             validation process using the index array provided */
-            SPRINTF((char *) base_path, VIRIATUM_MAX_PATH_SIZE, "%s%s", VIRIATUM_CONTENTS_PATH, path);
+#ifdef VIRIATUM_PCRE
+            if(regex_match) {
+                get_value_string_sort_map(
+                    service->locations.values[index].configuration,
+                    (unsigned char *) "base_path",
+                    &contents_path
+                );
+                if(contents_path != NULL) { contents_offset = match_size; }
+            }
+#endif
+            decode_percent(&path[contents_offset], path_size - contents_offset, path_d, &path_d_size);
+            SPRINTF(
+                (char *) base_path,
+                VIRIATUM_MAX_PATH_SIZE,
+                "%s/%s",
+                contents_path == NULL ? VIRIATUM_CONTENTS_PATH : (char *) contents_path,
+                path_d
+            );
             index_ = validate_file((char *) base_path, (char *) options->index, 32, 128);
 
             /* in case the index file resolution was successfull
@@ -297,6 +334,11 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
                 for the current request */
                 _index = index;
 
+                /* restores the default values, the path of the index file
+                may be handled by no location at all */
+                handler_name = (unsigned char *) DISPATCH_DEFAULT_HANDLER;
+                regex_match = 0;
+
                 /* iterates over all the regular expressions so that they
                 may be tested agains the current path */
                 for(index = 0; index < dispatch_handler->regex_count; index++) {
@@ -315,7 +357,13 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
 
                 /* in case the matching index has changed a new handler reference
                 must be retrieved from the map containing the HTTP handlers */
-                if(index != _index) { get_value_string_hash_map(service->http_handlers_map, handler_name, (void **) &handler); }
+                if(index != _index) {
+                    get_value_string_hash_map(service->http_handlers_map, handler_name, (void **) &handler);
+                    if(handler == NULL) {
+                        V_ERROR_F("Error retrieving '%s' handler reference\n", handler_name);
+                        RAISE_NO_ERROR;
+                    }
+                }
 #endif
             }
         }
@@ -340,8 +388,19 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             if the matched value starts with a slash value for such cases the
             offset to the virtual url must be reduced otherwise abnormal values
             to the url would be considered (creating additional path problems) */
-            virtual_url_offset = match_size > 0 && data[match_size - 1] == '/' ?\
+            virtual_url_offset = match_size > 0 && path[match_size - 1] == '/' ?\
                 match_size - 1 : match_size;
+
+            /* creates the virtual url from the remaining part of the path
+            and from the get parameters (if there are any) */
+            virtual_url = (unsigned char *) MALLOC(path_size + data_size + 1);
+            memcpy(virtual_url, path + virtual_url_offset, path_size - virtual_url_offset);
+            path_size -= virtual_url_offset;
+            if(pointer != NULL) {
+                memcpy(virtual_url + path_size, pointer, data_size - (pointer - (char *) data));
+                path_size += data_size - (pointer - (char *) data);
+            }
+            virtual_url[path_size] = '\0';
             CALL_V(
                 http_connection->http_settings->on_location,
                 http_parser,
@@ -351,9 +410,10 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
             CALL_V(
                 http_connection->http_settings->on_virtual_url,
                 http_parser,
-                data + virtual_url_offset,
-                data_size - virtual_url_offset
+                virtual_url,
+                path_size
             );
+            FREE(virtual_url);
         }
 #endif
     } else {
@@ -408,6 +468,61 @@ ERROR_CODE virtual_url_callback_handler_dispatch(struct http_parser_t *http_pars
     RAISE_NO_ERROR;
 }
 
+size_t _normalize_path_handler_dispatch(unsigned char *path, size_t path_size) {
+    /* allocates space for the decoded byte and for the reading
+    and writing positions of the (in place) operation */
+    unsigned char byte;
+    size_t index;
+    size_t start;
+    size_t size = 0;
+
+    /* only the absolute paths have a normal form */
+    if(path_size == 0 || path[0] != '/') { return path_size; }
+
+    /* decodes the escapes of the visible characters, except for the ones
+    that have a different meaning when they are not escaped */
+    for(index = 0; index < path_size; index++) {
+        byte = path[index];
+        if(byte == '%' && index + 2 < path_size) {
+            byte = from_hex(path[index + 1]) << 4 | from_hex(path[index + 2]);
+            if(byte > ' ' && byte < 127 && strchr("%+?#", byte) == NULL) { index += 2; }
+            else { byte = '%'; }
+        }
+        path[size++] = byte;
+    }
+    path_size = size;
+    size = 0;
+
+    /* removes the empty and the dot segments, the parent segments remove
+    the segment before them (never going above the root) */
+    for(index = 0; index < path_size; ) {
+        /* skips the separators that come before the segment */
+        while(index < path_size && path[index] == '/') { index++; }
+        start = index;
+        while(index < path_size && path[index] != '/') { index++; }
+
+        /* the separator is always present, and it's the last character
+        of the path in case the segment is to be removed */
+        path[size++] = '/';
+        if(index - start == 1 && path[start] == '.') { size--; }
+        else if(index - start == 2 && path[start] == '.' && path[start + 1] == '.') {
+            size--;
+            while(size > 0 && path[--size] != '/') { }
+        } else {
+            memmove(&path[size], &path[start], index - start);
+            size += index - start;
+            continue;
+        }
+
+        /* a removed segment at the end of the path refers a directory */
+        if(index == path_size) { path[size++] = '/'; }
+    }
+
+    /* closes the path and returns its (new) size to the caller */
+    path[size] = '\0';
+    return size;
+}
+
 ERROR_CODE _set_http_parser_handler_dispatch(struct http_parser_t *http_parser) {
     /* raises no error */
     RAISE_NO_ERROR;
diff --git a/src/viriatum/handlers/handler_dispatch.h b/src/viriatum/handlers/handler_dispatch.h
index 2250815..a275a06 100644
--- a/src/viriatum/handlers/handler_dispatch.h
+++ b/src/viriatum/handlers/handler_dispatch.h
@@ -90,6 +90,7 @@ ERROR_CODE message_complete_callback_handler_dispatch(struct http_parser_t *http
 ERROR_CODE path_callback_handler_dispatch(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
 ERROR_CODE location_callback_handler_dispatch(struct http_parser_t *http_parser, size_t index, size_t offset);
 ERROR_CODE virtual_url_callback_handler_dispatch(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
+size_t _normalize_path_handler_dispatch(unsigned char *path, size_t path_size);
 ERROR_CODE _set_http_parser_handler_dispatch(struct http_parser_t *http_parser);
 ERROR_CODE _unset_http_parser_handler_dispatch(struct http_parser_t *http_parser);
 ERROR_CODE _set_http_settings_handler_dispatch(struct http_settings_t *http_settings);
-- 
2.43.0


From 2c848a24a6db8c98b33b6707fea3574ae7c969b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:26 +0000
Subject: [PATCH 29/77] fix: parse the whole of a template and stay inside its
 fields

---
 src/viriatum_commons/template/engine.c  | 35 ++++++-----
 src/viriatum_commons/template/engine.h  |  2 +-
 src/viriatum_commons/template/handler.c | 79 ++++++++++++++++++++-----
 3 files changed, 84 insertions(+), 32 deletions(-)

diff --git a/src/viriatum_commons/template/engine.c b/src/viriatum_commons/template/engine.c
index 8fc501c..cc44f07 100644
--- a/src/viriatum_commons/template/engine.c
+++ b/src/viriatum_commons/template/engine.c
@@ -80,8 +80,8 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
 
     /* allocates space for the current (character) for reading
     and for the ahead character for look ahead */
-    char current = '\0';
-    char ahead = '\0';
+    int current = '\0';
+    int ahead = '\0';
 
     /* allocates the space for the look ahead valid flag */
     unsigned char ahead_set = 0;
@@ -162,9 +162,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
             current = _getc_template_engine(file, &pointer, &file_size);
         }
 
-        /* in case the end of file has been found, or
-        the file size is zero (breaks) */
-        if(current == EOF || file_size == 0) {
+        /* in case the end of file has been found
+        (all of the characters have been parsed) */
+        if(current == EOF) {
             /* breaks the cycle (end of parsing) */
             break;
         }
@@ -200,8 +200,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
                         TEMPLATE_CALLBACK(tag_close_begin);
                         ahead_set = 0;
                     }
-                } else {
-                    /* resets the state to the "normal" */
+                } else if(current != '$') {
+                    /* resets the state to the "normal", as the
+                    character may not start a new tag */
                     state = TEMPLATE_ENGINE_NORMAL;
                 }
 
@@ -345,7 +346,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
 
                         TEMPLATE_MARK(text_end);
 
-                        /* calls the tag end and text begin callbacks */
+                        /* calls the parameter value, tag end and
+                        text begin callbacks */
+                        TEMPLATE_CALLBACK_DATA_N(parameter_value, 2);
                         TEMPLATE_CALLBACK_DATA(tag_end);
                         TEMPLATE_CALLBACK(text_begin);
 
@@ -390,9 +393,9 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
         }
     }
 
-    /* in case the current state is engine
-    normal (there must be text to be flushed) */
-    if(state == TEMPLATE_ENGINE_NORMAL) {
+    /* in case the current state is engine normal or a dollar
+    sign has just been found (there must be text to be flushed) */
+    if(state == TEMPLATE_ENGINE_NORMAL || state == TEMPLATE_ENGINE_DOLLAR) {
         /* calls the text end callback */
         TEMPLATE_CALLBACK_DATA(text_end);
     }
@@ -407,15 +410,15 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
     RAISE_NO_ERROR;
 }
 
-char _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size) {
+int _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size) {
     /* allocates space for the current character
     to be retrieve in the function */
-    char current;
+    int current;
 
     /* in case the size is already zero (nothing remaining) */
-    if(size == 0) {
-        /* returns invalid */
-        return 0;
+    if(*size == 0) {
+        /* returns the end of file value */
+        return EOF;
     }
 
     /* retrieves the current character
diff --git a/src/viriatum_commons/template/engine.h b/src/viriatum_commons/template/engine.h
index 1afdc2d..4861b89 100644
--- a/src/viriatum_commons/template/engine.h
+++ b/src/viriatum_commons/template/engine.h
@@ -216,4 +216,4 @@ VIRIATUM_EXPORT_PREFIX ERROR_CODE process_template_engine(struct template_engine
  * (remaining) size in the file.
  * @return The character read from the file stream.
  */
-VIRIATUM_EXPORT_PREFIX char _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size);
+VIRIATUM_EXPORT_PREFIX int _getc_template_engine(FILE *file, unsigned char **pointer, size_t *size);
diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 58e770e..2b5ed36 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -251,9 +251,17 @@ void process_template_handler(struct template_handler_t *template_handler, unsig
     template_settings->on_parameter_value = _parameter_value_callback;
 
     /* processes the file as a template engine and then uses the
-    created node structure to traverse for string buffer output */
+    created node structure to traverse for string buffer output,
+    starting at the root as there may be tags left open */
     process_template_engine(template_engine, template_settings, file_path);
-    traverse_node_buffer(template_handler, template_handler->current_node);
+    traverse_node_buffer(template_handler, root_node);
+
+    /* in case there's a tag that was not terminated its node is not
+    part of the structure and must be deleted here */
+    if(template_handler->temporary_node != NULL) {
+        delete_template_node(template_handler->temporary_node);
+        template_handler->temporary_node = NULL;
+    }
 
     /* "joins" the template handler string buffer into the string
     value, retrieving the final template result */
@@ -261,6 +269,7 @@ void process_template_handler(struct template_handler_t *template_handler, unsig
 
     /* deletes the now unecessary root node */
     delete_template_node(root_node);
+    template_handler->current_node = NULL;
 
     /* deletes the template settings */
     delete_template_settings(template_settings);
@@ -333,11 +342,16 @@ void get_template_handler(struct template_handler_t *template_handler, unsigned
     unsigned char *context;
 
     /* allocates space for the (type) value */
-    struct type_t *value;
+    struct type_t *value = NULL;
 
     /* retrieves the template global names as thee base value */
     struct hash_map_t *_value = template_handler->names;
 
+    /* sets the value as not found, to be returned in case the name
+    is not able to fit in the temporary buffer */
+    *value_pointer = NULL;
+    if(strlen((char *) name) >= sizeof(_name)) { return; }
+
     /* copies the name reference into a backup value
     to avoid data corruption (from tokenization) */
     memcpy(_name, name, strlen((char *) name) + 1);
@@ -354,6 +368,13 @@ void get_template_handler(struct template_handler_t *template_handler, unsigned
             break;
         }
 
+        /* in case there's no map to be used in the retrieval (the
+        previous value is not a map) the name is not found */
+        if(_value == NULL) {
+            value = NULL;
+            break;
+        }
+
         /* retrieves the value from the current value with the
         name token reference key value */
         get_value_string_hash_map(_value, name_token, (void **) &value);
@@ -367,7 +388,7 @@ void get_template_handler(struct template_handler_t *template_handler, unsigned
 
         /* updates the (hash map) value reference with the "newly"
         retrieved value */
-        _value = value->value.value_map;
+        _value = value->type == MAP_TYPE ? value->value.value_map : NULL;
 
         /* retrieves the next token */
         name_token = (unsigned char *) STRTOK(NULL, ".", context);
@@ -452,7 +473,10 @@ void traverse_node_buffer(struct template_handler_t *template_handler, struct te
 
         case TEMPLATE_NODE_SINGLE:
         case TEMPLATE_NODE_OPEN:
-            if(strcmp((char *) node->name, "out") == 0) {
+            if(node->name == NULL || node->parameters_map == NULL) {
+                /* there's nothing to be done for a tag with
+                no name or with no parameters */
+            } else if(strcmp((char *) node->name, "out") == 0) {
                 /* traverses the out node in buffer mode */
                 _traverse_out_buffer(template_handler, node);
             } else if(strcmp((char *) node->name, "foreach") == 0) {
@@ -522,6 +546,9 @@ void _traverse_out_buffer(struct template_handler_t *template_handler, struct te
     /* retrieves value parameter from the parameters map */
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "value", (void **) &value_parameter);
 
+    /* in case there's no value there's nothing to be added */
+    if(value_parameter == NULL) { return; }
+
     /* switches over the value parameter type to
     update the string buffer accordingly */
     switch(value_parameter->type) {
@@ -590,12 +617,17 @@ void _traverse_for_each_buffer(struct template_handler_t *template_handler, stru
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "item", (void **) &item_parameter);
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "from", (void **) &from_parameter);
 
+    /* in case either of the parameters is not a reference there's
+    nothing to be iterated */
+    if(item_parameter == NULL || item_parameter->type != TEMPLATE_PARAMETER_REFERENCE) { return; }
+    if(from_parameter == NULL || from_parameter->type != TEMPLATE_PARAMETER_REFERENCE) { return; }
+
     /* tries to retrieve the reference value from the map of names in the
     template handler (dereferencing) */
     get_template_handler(template_handler, from_parameter->reference_value, &value);
 
-    /* in case the value was not found */
-    if(value == NULL) {
+    /* in case the value was not found, or is not iterable */
+    if(value == NULL || value->type != LIST_TYPE) {
         /* returns immediately */
         return;
     }
@@ -644,12 +676,17 @@ void _traverse_if_buffer(struct template_handler_t *template_handler, struct tem
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "value", (void **) &value_parameter);
     get_value_string_hash_map(node->parameters_map, (unsigned char *) "operator", (void **) &operator_parameter);
 
+    /* in case either there's no reference to be compared or there's
+    no value to compare it to the condition is not valid */
+    if(item_parameter == NULL || item_parameter->type != TEMPLATE_PARAMETER_REFERENCE) { return; }
+    if(value_parameter == NULL || value_parameter->type != TEMPLATE_PARAMETER_INTEGER) { return; }
+
     /* tries to retrieve the reference value from the map of names in the
     template handler (dereferencing) */
-    get_template_handler(template_handler, (unsigned char *) "entry.type", &value);
+    get_template_handler(template_handler, item_parameter->reference_value, &value);
 
-    /* in case the value was not found */
-    if(value == NULL) {
+    /* in case the value was not found, or is not comparable */
+    if(value == NULL || value->type != INTEGER_TYPE) {
         /* returns immediately */
         return;
     }
@@ -686,6 +723,9 @@ ERROR_CODE _open_context_template_handler(struct template_handler_t *template_ha
 }
 
 ERROR_CODE _close_context_template_handler(struct template_handler_t *template_handler) {
+    /* in case there's no open context there's nothing to be closed */
+    if(template_handler->contexts == NULL || template_handler->contexts->size == 0) { RAISE_NO_ERROR; }
+
     /* pops the last context into the template handler current node */
     pop_top_value_linked_list(template_handler->contexts, (void **) &template_handler->current_node, 1);
 
@@ -707,10 +747,8 @@ ERROR_CODE _text_end_callback(struct template_engine_t *template_engine, const u
     struct template_handler_t *template_handler = (struct template_handler_t *) template_engine->context;
     struct template_node_t *current_node = template_handler->current_node;
 
-    /* creates a new template node and sets the template
-    node as the temporary node in the template handler */
+    /* creates a new template node for the text */
     create_template_node(&template_node, TEMPLATE_NODE_TEXT);
-    template_handler->temporary_node = template_node;
 
     /* allocates the space for the temporary node name and
     sets it with a memory copy */
@@ -807,6 +845,10 @@ ERROR_CODE _tag_end_callback(struct template_engine_t *template_engine, const un
             break;
     }
 
+    /* the node is no longer the temporary one, as from now on it's
+    either deleted or owned by the list of nodes */
+    template_handler->temporary_node = NULL;
+
     /* in case the temporary node is of type close */
     if(temporary_node->type == TEMPLATE_NODE_CLOSE) {
         /* deletes the temporary node (no need to process it) */
@@ -878,6 +920,9 @@ ERROR_CODE _parameter_callback(struct template_engine_t *template_engine, const
         create_hash_map(&temporary_node->parameters_map, 0);
     }
 
+    /* limits the size of the name to the space available for it */
+    if(size > sizeof(template_parameter->name) - 1) { size = sizeof(template_parameter->name) - 1; }
+
     /* creates the template parameter, sets it as the temporary parameter
     in the temporary node and adds it to the list of parameters */
     create_template_parameter(&template_parameter);
@@ -903,25 +948,29 @@ ERROR_CODE _parameter_value_callback(struct template_engine_t *template_engine,
     struct template_node_t *temporary_node = template_handler->temporary_node;
     struct template_parameter_t *temporary_parameter = temporary_node->temporary_parameter;
 
+    /* limits the size of the value to the space available for it */
+    if(size > sizeof(temporary_parameter->raw_value) - 1) { size = sizeof(temporary_parameter->raw_value) - 1; }
+
     /* sets the raw value in the template parameter throught a memory copy */
     memcpy(temporary_parameter->raw_value, pointer, size);
     temporary_parameter->raw_value[size] = '\0';
 
     /* in case the first character of the raw value is
     a start string character the value must be a string */
-    if(temporary_parameter->raw_value[0] == '"') {
+    if(temporary_parameter->raw_value[0] == '"' && size > 1) {
         memcpy(temporary_parameter->string_value, pointer + 1, size - 2);
         temporary_parameter->string_value[size - 2] = '\0';
         temporary_parameter->type = TEMPLATE_PARAMETER_STRING;
     }
     /* in case the first character of the raw value is a numeric
     value it must be a number */
-    else if(temporary_parameter->raw_value[0] > 0x2f && temporary_parameter->raw_value[0] < 0x58) {
+    else if(temporary_parameter->raw_value[0] > 0x2f && temporary_parameter->raw_value[0] < 0x3a) {
         temporary_parameter->int_value = atoi((char *) temporary_parameter->raw_value);
         temporary_parameter->type = TEMPLATE_PARAMETER_INTEGER;
     }
     /* othwerwise it must be a (variable) reference value */
     else {
+        if(size > sizeof(temporary_parameter->reference_value) - 1) { size = sizeof(temporary_parameter->reference_value) - 1; }
         memcpy(temporary_parameter->reference_value, pointer, size);
         temporary_parameter->reference_value[size] = '\0';
         temporary_parameter->type = TEMPLATE_PARAMETER_REFERENCE;
-- 
2.43.0


From 7c9511ca64188a6545550738df75f793d127ee9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 30/77] fix: keep apart the hash map keys that share only the
 integer

---
 src/viriatum_commons/structures/hash_map.c | 7 ++++---
 src/viriatum_commons/structures/hash_map.h | 8 ++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/viriatum_commons/structures/hash_map.c b/src/viriatum_commons/structures/hash_map.c
index 0236784..0876038 100644
--- a/src/viriatum_commons/structures/hash_map.c
+++ b/src/viriatum_commons/structures/hash_map.c
@@ -168,7 +168,7 @@ void get_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char *key_st
         requested (element found) note that an extra
         verification is done to make sure that in case
         a string key is specified it also matches */
-        if(element->key == key && (key_string == NULL || strcmp((char *) element->key_string, (char *) key_string) == 0)) {
+        if(element->key == key && MATCH_HASH_MAP(element, key_string)) {
             /* breaks the loop */
             break;
         }
@@ -391,8 +391,9 @@ void _set_value_hash_map(struct hash_map_t *hash_map, size_t key, unsigned char
         element = &hash_map->elements_buffer[index];
 
         /* in case the element is empty or the
-        key is the same (overwrite) */
-        if(element->used == 0 || element->key == key) {
+        key is the same (overwrite), different string
+        keys may have the same integer key */
+        if(element->used == 0 || (element->key == key && MATCH_HASH_MAP(element, key_string))) {
             /* breaks the loop */
             break;
         }
diff --git a/src/viriatum_commons/structures/hash_map.h b/src/viriatum_commons/structures/hash_map.h
index 01ef3cb..8cc673f 100644
--- a/src/viriatum_commons/structures/hash_map.h
+++ b/src/viriatum_commons/structures/hash_map.h
@@ -47,6 +47,14 @@
  */
 #define DEFAULT_RESIZE_FACTOR 4
 
+/**
+ * Tests if the string key of an element is the provided one, the
+ * absence of any of the string keys is considered to be a match,
+ * as only the integer keys are then able to be compared.
+ */
+#define MATCH_HASH_MAP(element, string) ((string) == NULL || (element)->key_string == NULL ||\
+    strcmp((char *) (element)->key_string, (char *) (string)) == 0)
+
 typedef struct hash_map_t {
     size_t size;
     size_t maximum_size;
-- 
2.43.0


From b18c36569530931c8a0b3202ac85f16910bef46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 31/77] fix: read the last value of an ini file and stay inside
 its fields

---
 src/viriatum_commons/ini/ini.c          | 25 +++++++++++++++++++++++++
 src/viriatum_commons/util/string_util.h |  6 ++----
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/viriatum_commons/ini/ini.c b/src/viriatum_commons/ini/ini.c
index e7d90e9..4245586 100644
--- a/src/viriatum_commons/ini/ini.c
+++ b/src/viriatum_commons/ini/ini.c
@@ -86,6 +86,11 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
     ini_handler_s.configuration = configuration;
     ini_engine_s.context = ini_handler;
 
+    /* the keys that come before any section belong to the one
+    with the empty name */
+    ini_handler_s.section[0] = '\0';
+    ini_handler_s.key[0] = '\0';
+
     /* sets the flag that controls if the trailing space
     characters should be removesd from key and values */
     ini_handler_s.remove_spaces = 1;
@@ -95,6 +100,11 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
     error prints it to the error stream output */
     return_value = read_file(file_path, &file_buffer, &file_size);
     if(IS_ERROR_CODE(return_value)) {
+        /* releases the configuration, there's nothing in it that
+        may be used by the caller */
+        delete_sort_map(configuration);
+        *configuration_pointer = NULL;
+
         RAISE_ERROR_F(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem reading file %s",
@@ -178,6 +188,13 @@ ERROR_CODE process_ini_file(char *file_path, struct sort_map_t **configuration_p
         }
     }
 
+    /* the last value of the file is not required to be followed
+    by an end of line, its end is the end of the file */
+    if(state == INI_ENGINE_VALUE) {
+        pointer = &file_buffer[file_size];
+        INI_CALLBACK_DATA(value_end);
+    }
+
     /* releases the buffer used durring the parsing of
     the configuration file (avoids leaks) */
     FREE(file_buffer);
@@ -190,6 +207,7 @@ ERROR_CODE _ini_section_end_callback(struct ini_engine_t *ini_engine, const unsi
     /* retrieves the ini handler from the template engine context
     then uses it to store the (current) section */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
+    if(size > INI_KEY_MAX_SIZE - 1) { size = INI_KEY_MAX_SIZE - 1; }
     memcpy(ini_handler->section, pointer, size);
     ini_handler->section[size] = '\0';
 
@@ -207,6 +225,7 @@ ERROR_CODE _ini_key_end_callback(struct ini_engine_t *ini_engine, const unsigned
     then uses it to store the (current) value */
     struct ini_handler_t *ini_handler = (struct ini_handler_t *) ini_engine->context;
     size = ini_handler->remove_spaces ? trailing_size((char *) pointer, size) : size;
+    if(size > INI_KEY_MAX_SIZE - 1) { size = INI_KEY_MAX_SIZE - 1; }
     memcpy(ini_handler->key, pointer, size);
     ini_handler->key[size] = '\0';
 
@@ -218,6 +237,7 @@ ERROR_CODE _ini_value_end_callback(struct ini_engine_t *ini_engine, const unsign
     /* allocates space for the sort map reference to
     hold the reference to the current section configuration */
     struct sort_map_t *section_configuration;
+    void *previous;
 
     /* retrieves the ini handler from the template engine context
     then uses it to store the (current) value */
@@ -240,6 +260,11 @@ ERROR_CODE _ini_value_end_callback(struct ini_engine_t *ini_engine, const unsign
         set_value_string_sort_map(ini_handler->configuration, (unsigned char *) ini_handler->section, section_configuration);
     }
 
+    /* the value replaces the one that may have been previously
+    set for the key, which is no longer going to be used */
+    get_value_string_sort_map(section_configuration, (unsigned char *) ini_handler->key, &previous);
+    if(previous != NULL) { FREE(previous); }
+
     /* sets the current key and value under the current section configuration
     this is the main handler action */
     set_value_string_sort_map(section_configuration, (unsigned char *) ini_handler->key, value);
diff --git a/src/viriatum_commons/util/string_util.h b/src/viriatum_commons/util/string_util.h
index b9217d2..abbb928 100644
--- a/src/viriatum_commons/util/string_util.h
+++ b/src/viriatum_commons/util/string_util.h
@@ -199,12 +199,11 @@ static __inline size_t trailing_size(char *buffer, size_t size) {
     char byte;
     char *_pointer = buffer + size - 1;
 
-    while(TRUE) {
+    while(size > 0) {
         byte = *_pointer;
         if(byte != ' ') { break; }
         _pointer--;
         size--;
-        if(size == 0) { break; }
     }
 
     return size;
@@ -215,12 +214,11 @@ static __inline size_t leading_offset(char *buffer, size_t size) {
     size_t _size = 0;
     char *_pointer = buffer;
 
-    while(TRUE) {
+    while(_size < size) {
         byte = *_pointer;
         if(byte != ' ') { break; }
         _pointer++;
         _size++;
-        if(_size == size) { break; }
     }
 
     return _size;
-- 
2.43.0


From 1ce36ab9594490e07560d0365bfbcbdeaf569031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 32/77] fix: ignore arguments that are not options and stay
 inside their fields

---
 src/viriatum_commons/util/arguments_util.c | 36 ++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/util/arguments_util.c b/src/viriatum_commons/util/arguments_util.c
index bdb40d4..3293af0 100644
--- a/src/viriatum_commons/util/arguments_util.c
+++ b/src/viriatum_commons/util/arguments_util.c
@@ -42,6 +42,11 @@ ERROR_CODE process_arguments(int argc, char *argv[], struct hash_map_t **argumen
     struct argument_t *argument;
     struct hash_map_t *arguments;
 
+    /* allocates space for the return value of the parsing and
+    for the argument previously set for a key */
+    ERROR_CODE return_value;
+    void *previous;
+
     /* creates the hash map that will hold the various
     arguments */
     create_hash_map(&arguments, 0);
@@ -56,7 +61,18 @@ ERROR_CODE process_arguments(int argc, char *argv[], struct hash_map_t **argumen
         using the default (simple) parser and sets it in
         the arguments map */
         current_argument = argv[index];
-        _process_argument(current_argument, argument);
+        return_value = _process_argument(current_argument, argument);
+        if(IS_ERROR_CODE(return_value)) {
+            /* the argument is not an option, ignores it */
+            CATCH_ERROR;
+            FREE(argument);
+            continue;
+        }
+
+        /* the last of the arguments with the same key is the one that
+        is used, releases the previous one */
+        get_value_string_hash_map(arguments, (unsigned char *) argument->key, &previous);
+        if(previous != NULL) { FREE(previous); }
         set_value_string_hash_map(
             arguments,
             (unsigned char *) argument->key,
@@ -126,7 +142,7 @@ ERROR_CODE print_arguments(struct hash_map_t *arguments) {
     struct iterator_t *arguments_iterator;
 
     /* creates an iterator for the arguments hash map */
-    create_iterator_hash_map(arguments, &arguments_iterator);
+    create_element_iterator_hash_map(arguments, &arguments_iterator);
 
     /* prints the initial arguments header */
     PRINTF("Arguments\n");
@@ -188,6 +204,8 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
 
     /* sets the argument to type key (just a name) */
     argument->type = SINGLE_ARGUMENT;
+    argument->key[0] = '\0';
+    argument->value[0] = '\0';
 
     /* iterates over all the characters present in
     the argument string to parse the argument */
@@ -240,6 +258,9 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
 
                     /* copies the key value into the appropriate variable
                     in the argument */
+                    if(index - mark >= sizeof(argument->key)) {
+                        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Option is too long");
+                    }
                     memcpy(argument->key, argument_value + mark, index - mark);
                     argument->key[index - mark] = '\0';
 
@@ -260,10 +281,18 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
     /* switches one final time over the state to close
     the pending values */
     switch(state) {
+        case ARGUMENT_INITIAL:
+        case ARGUMENT_FIRST:
+            /* there's no name in the argument */
+            RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem parsing option");
+
         case ARGUMENT_SECOND:
         case ARGUMENT_KEY:
             /* copies the key value into the appropriate variable
             in the argument */
+            if(index - mark >= sizeof(argument->key)) {
+                RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Option is too long");
+            }
             memcpy(argument->key, argument_value + mark, index - mark);
             argument->key[index - mark] = '\0';
 
@@ -273,6 +302,9 @@ ERROR_CODE _process_argument(char *argument_value, struct argument_t *argument)
         case ARGUMENT_VALUE:
             /* copies the value value into the appropriate variable
             in the argument */
+            if(index - mark >= sizeof(argument->value)) {
+                RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Option is too long");
+            }
             memcpy(argument->value, argument_value + mark, index - mark);
             argument->value[index - mark] = '\0';
 
-- 
2.43.0


From 6c13d982cf77d3984395c4cea118596da4a57d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 33/77] fix: stay inside the options of the service and refuse
 an unknown handler

---
 src/viriatum/handlers/handler_dispatch.c |  2 +-
 src/viriatum/system/service.c            | 24 +++++++++++++++++++++---
 src/viriatum_commons/util/string_util.h  |  9 ++++++---
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/viriatum/handlers/handler_dispatch.c b/src/viriatum/handlers/handler_dispatch.c
index 603d4c4..79ab169 100644
--- a/src/viriatum/handlers/handler_dispatch.c
+++ b/src/viriatum/handlers/handler_dispatch.c
@@ -311,7 +311,7 @@ ERROR_CODE url_callback_handler_dispatch(struct http_parser_t *http_parser, cons
                 contents_path == NULL ? VIRIATUM_CONTENTS_PATH : (char *) contents_path,
                 path_d
             );
-            index_ = validate_file((char *) base_path, (char *) options->index, 32, 128);
+            index_ = validate_file((char *) base_path, (char *) options->index, options->index_count, 128);
 
             /* in case the index file resolution was successfull
             (a new file was resolved) must match the file path through
diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index b561e59..d4b12bb 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -119,6 +119,7 @@ void create_service_options(struct service_options_t **service_options_pointer)
     service_options->ssl_key = NULL;
     service_options->handler_name = NULL;
     service_options->local = 0;
+    service_options->workers = 0;
     service_options->default_index = 0;
     service_options->use_template = 0;
     service_options->default_virtual_host = NULL;
@@ -315,9 +316,10 @@ ERROR_CODE calculate_locations_service(struct service_t *service) {
     int is_equal;
 
     struct sort_map_t *configuration = service->configuration;
+    if(configuration == NULL) { RAISE_NO_ERROR; }
     create_element_iterator_sort_map(configuration, &iterator);
 
-    while(TRUE) {
+    while(service->locations.count < sizeof(service->locations.values) / sizeof(struct location_t)) {
         get_next_iterator(iterator, (void **) &element);
         if(element == NULL) { break; }
 
@@ -579,6 +581,16 @@ ERROR_CODE start_service(struct service_t *service) {
         (void **) &service->http_handler
     );
 
+    /* in case there's no such handler there's no way to handle
+    the connections, the service must not be started */
+    if(service->http_handler == NULL) {
+        V_ERROR_F("Problem retrieving handler: %s\n", service_options->handler_name);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem retrieving handler"
+        );
+    }
+
     /* sets the socket address attributes in the socket address
     structure so that the connection is properly defined */
     socket_address.sin_family = SOCKET_INTERNET_TYPE;
@@ -2168,7 +2180,12 @@ ERROR_CODE _file_options_service(struct service_t *service, struct hash_map_t *a
     SPRINTF(config_path, VIRIATUM_MAX_PATH_SIZE, "%s/viriatum.ini", VIRIATUM_CONFIG_PATH);
     V_DEBUG_F("Loading configuration file (%s)\n", config_path);
     return_value = process_ini_file(config_path, &configuration);
-    if(IS_ERROR_CODE(return_value)) { CATCH_ERROR; }
+    if(IS_ERROR_CODE(return_value)) {
+        /* there's no configuration file, the default options are the
+        ones that are going to be used */
+        CATCH_ERROR;
+        RAISE_NO_ERROR;
+    }
 
     /* sets the configuraation structure under the service structure
     so that it may be latter used for operations */
@@ -2242,7 +2259,7 @@ ERROR_CODE _file_options_service(struct service_t *service, struct hash_map_t *a
     /* tries to retrieve the index (file) argument from the arguments map, then
     sets the split value arround the space character in the index value */
     get_value_string_sort_map(general, (unsigned char *) "index", &value);
-    if(value != NULL) { service_options->index_count = split(value, (char *) service_options->index, 128, ' '); }
+    if(value != NULL) { service_options->index_count = split(value, (char *) service_options->index, 32, 128, ' '); }
 
     /* raises no error */
     RAISE_NO_ERROR;
@@ -2318,6 +2335,7 @@ const char *_get_mime_type_service(struct service_t *service, char *extension) {
     char extension_l[VIRIATUM_MAX_EXTENSION_SIZE];
     size_t extension_s = strlen(extension);
     struct service_options_t *service_options = service->options;
+    if(extension_s >= sizeof(extension_l)) { return NULL; }
     memcpy(extension_l, extension, extension_s);
     extension_l[extension_s] = '\0';
     lowercase(extension_l);
diff --git a/src/viriatum_commons/util/string_util.h b/src/viriatum_commons/util/string_util.h
index abbb928..094e607 100644
--- a/src/viriatum_commons/util/string_util.h
+++ b/src/viriatum_commons/util/string_util.h
@@ -141,7 +141,8 @@ static __inline void normalize_path(char *string_value) {
 }
 
 static __inline char *extension_path(char *string_value) {
-    size_t index = strlen(string_value) - 1;
+    size_t index = strlen(string_value);
+    if(index > 0) { index--; }
     while(string_value[index] != '.' && index != 0) { index--; }
     return &string_value[index];
 }
@@ -224,7 +225,7 @@ static __inline size_t leading_offset(char *buffer, size_t size) {
     return _size;
 }
 
-static __inline size_t split(char *string_value, char *buffer, size_t size_e, char token) {
+static __inline size_t split(char *string_value, char *buffer, size_t elements, size_t size_e, char token) {
     /* allocates space for the temporary token to be used to
     store the current token in iteration */
     char _token;
@@ -238,7 +239,7 @@ static __inline size_t split(char *string_value, char *buffer, size_t size_e, ch
 
     /* iterates continuousuly over the string value to correctly
     parse the string value and split it */
-    while(TRUE) {
+    while(count < elements) {
         /* retrieves the current token character to be evaluated
         for conditional expression execution */
         _token = string_value[index];
@@ -250,6 +251,7 @@ static __inline size_t split(char *string_value, char *buffer, size_t size_e, ch
             of index and then copies the string from one memory
             buffer to the other over the calculated size */
             size = index - _index;
+            if(size >= size_e) { size = size_e - 1; }
             memcpy(buffer, &string_value[_index], size);
             buffer[size] = '\0';
 
@@ -269,6 +271,7 @@ static __inline size_t split(char *string_value, char *buffer, size_t size_e, ch
             of index and then copies the string from one memory
             buffer to the other over the calculated size */
             size = index - _index;
+            if(size >= size_e) { size = size_e - 1; }
             memcpy(buffer, &string_value[_index], size);
             buffer[size] = '\0';
 
-- 
2.43.0


From df8e6ff09c4e026e84b0b671237e912cf223b197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:26 +0000
Subject: [PATCH 34/77] fix: stay inside the fields of an url and accept one
 without a path

---
 src/viriatum_commons/formats/url.c | 56 +++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/src/viriatum_commons/formats/url.c b/src/viriatum_commons/formats/url.c
index 95ff5c9..f12fbb7 100644
--- a/src/viriatum_commons/formats/url.c
+++ b/src/viriatum_commons/formats/url.c
@@ -56,6 +56,7 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
     /* sets the URL pointer as the initial mark value and also
     sets the initial state of the parsing as the scheme state */
     mark = (unsigned char *) url;
+    pointer = (unsigned char *) url + url_size;
     state = SCHEME_STATE;
 
     /* iterate over the complete URL buffer to try to gather
@@ -170,6 +171,14 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
                         state = QUERY_STATE;
                         mark = pointer + 1;
                         break;
+
+                    case '#':
+                        length = pointer - mark;
+                        url_s->path.buffer = mark;
+                        url_s->path.length = length;
+                        state = FRAGMENT_STATE;
+                        mark = pointer + 1;
+                        break;
                 }
 
                 break;
@@ -191,11 +200,32 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
                 break;
         }
     }
-    pointer++;
+
+    /* updates the pointer to the end of the URL, the end of the
+    last of the parts of it */
+    pointer = (unsigned char *) url + url_size;
 
     /* runs the final swith operation to clone the still
     opened parse step (the final step) */
     switch(state) {
+        case AUTH_STATE:
+            length = pointer - mark;
+            url_s->host_c.buffer = mark;
+            url_s->host_c.length = length;
+            break;
+
+        case HOST_STATE:
+            length = pointer - mark;
+            url_s->host.buffer = mark;
+            url_s->host.length = length;
+            break;
+
+        case PORT_STATE:
+            length = pointer - mark;
+            url_s->port_s.buffer = mark;
+            url_s->port_s.length = length;
+            break;
+
         case PATH_STATE:
             length = pointer - mark;
             url_s->path.buffer = mark;
@@ -247,6 +277,7 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
     }
 
     if(url_s->port_s.buffer != NULL) {
+        if(url_s->port_s.length >= sizeof(buffer)) { goto error; }
         memcpy(buffer, url_s->port_s.buffer, url_s->port_s.length);
         buffer[url_s->port_s.length] = '\0';
 
@@ -281,6 +312,21 @@ ERROR_CODE parse_url_static(char *url, size_t url_size, struct url_static_t *url
 
     memset(url_s, 0, sizeof(struct url_static_t));
 
+    /* verifies that every part of the URL fits in the (static) space
+    that is reserved for it (includes the end of string) */
+    if(_url_s.scheme.length >= sizeof(url_s->scheme) ||
+        _url_s.username.length >= sizeof(url_s->username) ||
+        _url_s.password.length >= sizeof(url_s->password) ||
+        _url_s.host.length >= sizeof(url_s->host) ||
+        _url_s.path.length >= sizeof(url_s->path) ||
+        _url_s.query.length >= sizeof(url_s->query) ||
+        _url_s.fragment.length >= sizeof(url_s->fragment)) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "URL is too long"
+        );
+    }
+
     if(_url_s.scheme.buffer != NULL) {
         memcpy(url_s->scheme, _url_s.scheme.buffer, _url_s.scheme.length);
         url_s->scheme[_url_s.scheme.length] = '\0';
@@ -298,24 +344,24 @@ ERROR_CODE parse_url_static(char *url, size_t url_size, struct url_static_t *url
 
     if(_url_s.host.buffer != NULL) {
         memcpy(url_s->host, _url_s.host.buffer, _url_s.host.length);
-        url_s->password[_url_s.host.length] = '\0';
+        url_s->host[_url_s.host.length] = '\0';
     }
 
     if(_url_s.port != 0) { url_s->port = _url_s.port; }
 
     if(_url_s.path.buffer != NULL) {
         memcpy(url_s->path, _url_s.path.buffer, _url_s.path.length);
-        url_s->password[_url_s.path.length] = '\0';
+        url_s->path[_url_s.path.length] = '\0';
     }
 
     if(_url_s.query.buffer != NULL) {
         memcpy(url_s->query, _url_s.query.buffer, _url_s.query.length);
-        url_s->password[_url_s.query.length] = '\0';
+        url_s->query[_url_s.query.length] = '\0';
     }
 
     if(_url_s.fragment.buffer != NULL) {
         memcpy(url_s->fragment, _url_s.fragment.buffer, _url_s.fragment.length);
-        url_s->password[_url_s.fragment.length] = '\0';
+        url_s->fragment[_url_s.fragment.length] = '\0';
     }
 
     RAISE_NO_ERROR;
-- 
2.43.0


From cadd12b29cbb0637288eb9f1c2c02749a4a6d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:48 +0000
Subject: [PATCH 35/77] fix: forward the whole of a request to the backend

---
 src/viriatum/handlers/handler_proxy.c | 65 ++++++++++++++++++---------
 src/viriatum/handlers/handler_proxy.h | 17 ++++++-
 2 files changed, 61 insertions(+), 21 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 32525db..fa1f828 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -96,6 +96,7 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     handler_proxy_context->buffer = MALLOC(1024);
     handler_proxy_context->buffer_size = 0;
     handler_proxy_context->buffer_max_size = 1024;
+    handler_proxy_context->header_open = FALSE;
     handler_proxy_context->out_buffer = MALLOC(1024);
     handler_proxy_context->out_buffer_size = 0;
     handler_proxy_context->out_buffer_max_size = 1024;
@@ -356,6 +357,7 @@ ERROR_CODE message_begin_callback_handler_proxy(struct http_parser_t *http_parse
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
     handler_proxy_context->buffer_size = 0;
+    handler_proxy_context->header_open = FALSE;
     RAISE_NO_ERROR;
 }
 
@@ -366,6 +368,13 @@ ERROR_CODE url_callback_handler_proxy(struct http_parser_t *http_parser, const u
 ERROR_CODE header_field_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+
+    /* the fields that follow the body are not forwarded, the part
+    of the message where they belong has already been written */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+
+    if(handler_proxy_context->header_open) { write_proxy_buffer(handler_proxy_context, "\r\n", 2); }
+    handler_proxy_context->header_open = TRUE;
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
 
     RAISE_NO_ERROR;
@@ -374,7 +383,13 @@ ERROR_CODE header_field_callback_handler_proxy(struct http_parser_t *http_parser
 ERROR_CODE header_value_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
-    write_proxy_buffer(handler_proxy_context, ": ", 2);
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+
+    /* in case there's no header opened the value is the continuation of
+    the previous one and so it replaces the end of line of it */
+    if(handler_proxy_context->header_open) { write_proxy_buffer(handler_proxy_context, ": ", 2); }
+    else { handler_proxy_context->buffer_size -= 2; write_proxy_buffer(handler_proxy_context, " ", 1); }
+    handler_proxy_context->header_open = FALSE;
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_buffer(handler_proxy_context, "\r\n", 2);
     RAISE_NO_ERROR;
@@ -383,14 +398,28 @@ ERROR_CODE header_value_callback_handler_proxy(struct http_parser_t *http_parser
 ERROR_CODE headers_complete_callback_handler_proxy(struct http_parser_t *http_parser) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+    if(handler_proxy_context->header_open) { write_proxy_buffer(handler_proxy_context, "\r\n", 2); }
+    handler_proxy_context->header_open = FALSE;
     write_proxy_buffer(handler_proxy_context, "\r\n", 2);
     RAISE_NO_ERROR;
 }
 
 ERROR_CODE body_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
+    char *chunk;
+    size_t chunk_size;
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
-    write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
+
+    /* in case the message is sent in chunks (as announced by its headers)
+    the data of the current one must be sent as a chunk */
+    if(http_parser->flags & FLAG_CHUNKED) {
+        chunk = MALLOC(data_size + 32);
+        write_proxy_chunk(chunk, data, data_size, &chunk_size);
+        write_proxy_buffer(handler_proxy_context, chunk, chunk_size);
+        FREE(chunk);
+    } else {
+        write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
+    }
     RAISE_NO_ERROR;
 }
 
@@ -415,6 +444,12 @@ ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_pa
     the connection, removing any issue arround paralel message handling */
     http_connection->acquire(http_connection);
 
+    /* in case the message is sent in chunks the final one is written,
+    the body is then complete */
+    if(http_parser->flags & FLAG_CHUNKED) {
+        write_proxy_buffer(handler_proxy_context, "0\r\n\r\n", 5);
+    }
+
     /* checks if the client connection with the backend server is available
     in case it's not there must have been an error and it must be sent to the
     proxy client connection (service conneciont) */
@@ -484,15 +519,6 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct custom_parameters_t *parameters;
     struct connection_t *connection_c;
 
-    /* sets space for the resulting size of the buffer that will hold
-    the status line to be sent to the backend connection */
-    size_t size_m;
-
-    /* allocates two buffers for temporary and local operations to
-    in the current callback function */
-    char buffer[1024];
-    char path[1024];
-
     /* allocates space fot the temporary variable that will store the
     on close handler that will be set in the associative map */
     io_connection_callback on_close;
@@ -523,15 +549,14 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
 
-    /* copies the virtual url value into the local path buffer and then
-    closes it as a null terminated string */
-    memcpy(path, data, data_size);
-    path[data_size] = '\0';
-
-    /* writes the initial line of the HTTP message into the temporary buffer
-    and then sends this value to the current buffer for writing */
-    size_m = SPRINTF(buffer, 1024, "%s %s %s\r\n", method, path, version);
-    write_proxy_buffer(handler_proxy_context, buffer, size_m);
+    /* writes the initial line of the HTTP message into the current
+    buffer for writing */
+    write_proxy_buffer(handler_proxy_context, (char *) method, strlen(method));
+    write_proxy_buffer(handler_proxy_context, " ", 1);
+    write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
+    write_proxy_buffer(handler_proxy_context, " ", 1);
+    write_proxy_buffer(handler_proxy_context, (char *) version, strlen(version));
+    write_proxy_buffer(handler_proxy_context, "\r\n", 2);
 
     /*@todo: can put here the extra headers to be sent to the backend */
     write_proxy_buffer(handler_proxy_context, "X-Viriatum-Proxy:1\r\n", 20);
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 87b058c..e9d7584 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -135,6 +135,12 @@ typedef struct handler_proxy_context_t {
      */
     size_t buffer_max_size;
 
+    /**
+     * If the last header value written in the buffer is still missing, the
+     * name of the header has been written but there's no value for it.
+     */
+    char header_open;
+
     /**
      * The buffer to be used to store the data that will be considered the
      * output and will be sent back to the client of the proxy.
@@ -244,10 +250,19 @@ static __inline void write_proxy_out_buffer(struct handler_proxy_context_t *cont
     context->out_buffer_size += size;
 }
 
+static __inline void write_proxy_chunk(char *buffer, const unsigned char *data, size_t size, size_t *result_size) {
+    /* writes the data as a chunk, the size of it in hexadecimal
+    comes first, the buffer must have 32 extra bytes available */
+    size_t header_size = SPRINTF(buffer, 32, "%lx\r\n", (unsigned long) size);
+    memcpy(&buffer[header_size], data, size);
+    memcpy(&buffer[header_size + size], "\r\n", 2);
+    *result_size = header_size + size + 2;
+}
+
 static __inline void write_proxy_buffer(struct handler_proxy_context_t *context, char *data, size_t size) {
     if(context->buffer_size + size > context->buffer_max_size) {
         context->buffer_max_size = (context->buffer_size + size) * 2;
-        context->out_buffer = REALLOC(context->buffer, context->buffer_max_size);
+        context->buffer = REALLOC(context->buffer, context->buffer_max_size);
     }
 
     memcpy(&context->buffer[context->buffer_size], data, size);
-- 
2.43.0


From b13c0407827e560c88d5dc7faaaa8d755767f4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:48 +0000
Subject: [PATCH 36/77] fix: close the socket when the connection to an host
 can not be made

---
 src/viriatum/system/client.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/viriatum/system/client.c b/src/viriatum/system/client.c
index ad23739..4d398ca 100644
--- a/src/viriatum/system/client.c
+++ b/src/viriatum/system/client.c
@@ -63,6 +63,7 @@ ERROR_CODE _create_client_connection(struct connection_t **connection_pointer, s
     an error indicating the problem */
     server = SOCKET_GET_HOST_BY_NAME(hostname);
     if(server == NULL) {
+        SOCKET_CLOSE(socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "No such host"
@@ -80,6 +81,7 @@ ERROR_CODE _create_client_connection(struct connection_t **connection_pointer, s
     a problem in the connection attempt, raises an error */
     error = SOCKET_CONNECT_SIZE(socket_handle, serv_addr, sizeof(SOCKET_ADDRESS_INTERNET));
     if(SOCKET_TEST_ERROR(error)) {
+        SOCKET_CLOSE(socket_handle);
         RAISE_ERROR_M(
             RUNTIME_EXCEPTION_ERROR_CODE,
             (unsigned char *) "Problem connecting to host"
-- 
2.43.0


From dcb5b79e577246951892956981f9e319d987c697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:56 +0000
Subject: [PATCH 37/77] fix: send a request only to the backend of its location

---
 src/viriatum/handlers/handler_proxy.c | 35 +++++++++++++++++++++++++++
 src/viriatum/handlers/handler_proxy.h |  7 ++++++
 2 files changed, 42 insertions(+)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index fa1f828..92b3618 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -53,6 +53,7 @@ ERROR_CODE create_proxy_handler(struct proxy_handler_t **proxy_handler_pointer,
     to resolve the proxy connection to the old set on close handler so that
     it's possible to propagate the on close callback call */
     create_hash_map(&proxy_handler->on_close_map, 0);
+    create_hash_map(&proxy_handler->pass_map, 0);
 
     /* sets the proxy handler in the proxy handler pointer and returns
     the control flow to the caller function with no error */
@@ -75,6 +76,7 @@ ERROR_CODE delete_proxy_handler(struct proxy_handler_t *proxy_handler) {
     with the proxy with the upper on close handler that has been replaced
     in order to provide the backend connection removal */
     delete_hash_map(proxy_handler->on_close_map);
+    delete_hash_map(proxy_handler->pass_map);
 
     /* releases the proxy handler, avoiding any memory leaks
     that may be raised from this main structure and then returns
@@ -93,6 +95,7 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     /* sets the handler proxy default values, should not create
     any problem with the initial handling */
     handler_proxy_context->proxy_pass = NULL;
+    memset(&handler_proxy_context->url_s, 0, sizeof(struct url_static_t));
     handler_proxy_context->buffer = MALLOC(1024);
     handler_proxy_context->buffer_size = 0;
     handler_proxy_context->buffer_max_size = 1024;
@@ -519,6 +522,10 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct custom_parameters_t *parameters;
     struct connection_t *connection_c;
 
+    /* allocates space for the proxy pass of the backend connection
+    that is currently associated with the proxy client connection */
+    void *proxy_pass;
+
     /* allocates space fot the temporary variable that will store the
     on close handler that will be set in the associative map */
     io_connection_callback on_close;
@@ -566,6 +573,10 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     with the proxy client to send the data back */
     handler_proxy_context->connection = connection;
 
+    /* in case there's no (valid) backend defined for the location there's
+    no connection to be created, an error is going to be sent */
+    if(handler_proxy_context->url_s.host[0] == '\0') { RAISE_NO_ERROR; }
+
     /* tries to retrieve a possible backend (client) connection for the current
     proxy client connection, in case it exists it's going to be used (fast solution) */
     get_value_hash_map(
@@ -575,6 +586,21 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
         (void **) &handler_proxy_context->connection_c
     );
 
+    /* in case the backend connection was created for a location that is
+    passed to other backend it can't be used and so it's closed */
+    get_value_hash_map(
+        proxy_handler->pass_map,
+        (size_t) connection,
+        NULL,
+        &proxy_pass
+    );
+    if(handler_proxy_context->connection_c != NULL &&\
+        proxy_pass != (void *) handler_proxy_context->proxy_pass) {
+        connection_c = handler_proxy_context->connection_c;
+        handler_proxy_context->connection_c = NULL;
+        connection_c->close_connection(connection_c);
+    }
+
     /* creates the parameters object that is going to be passed to
     the connection and used on the open operation to guide it's
     creation, this is a custom protocol connection so the proper
@@ -665,6 +691,15 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
             NULL,
             (void *) (size_t) on_close
         );
+
+        /* saves the proxy pass for which the connection was created, so that
+        it's not used for any other backend */
+        set_value_hash_map(
+            proxy_handler->pass_map,
+            (size_t) connection,
+            NULL,
+            (void *) handler_proxy_context->proxy_pass
+        );
     }
     /* otherwise there's a valid connection to the backend connection and
     it may be re-used, so only the parameters object must be set */
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index e9d7584..a7b5ed5 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -94,6 +94,13 @@ typedef struct proxy_handler_t {
      * is able to call the old on close handler.
      */
     struct hash_map_t *on_close_map;
+
+    /**
+     * Map that associates the client connection with the proxy pass
+     * of the location for which its backend connection was created,
+     * such connection must not be used by any other location.
+     */
+    struct hash_map_t *pass_map;
 } proxy_handler;
 
 /**
-- 
2.43.0


From 531298622bda954fac4449e29ba02fdfa399bcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:34 +0000
Subject: [PATCH 38/77] fix: keep the proxied connections consistent when one
 of them is closed

---
 src/viriatum/handlers/handler_proxy.c | 97 +++++++++++++++++++--------
 src/viriatum/handlers/handler_proxy.h |  6 ++
 2 files changed, 75 insertions(+), 28 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 92b3618..a6eb5a2 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -106,6 +106,7 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     handler_proxy_context->connection = NULL;
     handler_proxy_context->connection_c = NULL;
     handler_proxy_context->pending = FALSE;
+    handler_proxy_context->sent = FALSE;
     handler_proxy_context->pending_write = 0;
 
     /* creates a new set of HTTP settings and parser for the new
@@ -304,6 +305,16 @@ ERROR_CODE close_proxy_connection(struct io_connection_t *io_connection) {
         (void **) &on_close
     );
 
+    /* undefines the complete set of values associated both with the proxy client
+    connection and with the backend connection, no longer required and so that
+    the closing of the backend connection is no longer able to reach this one */
+    set_value_hash_map(proxy_handler->connections_map, (size_t) connection, NULL, NULL);
+    set_value_hash_map(proxy_handler->on_close_map, (size_t) connection, NULL, NULL);
+    set_value_hash_map(proxy_handler->pass_map, (size_t) connection, NULL, NULL);
+    if(connection_c != NULL) {
+        set_value_hash_map(proxy_handler->reverse_map, (size_t) connection_c, NULL, NULL);
+    }
+
     /* in case an on close handler is define in the associative map must
     restore it and then call the top layer for the close event propagation */
     if(on_close != NULL) {
@@ -318,12 +329,6 @@ ERROR_CODE close_proxy_connection(struct io_connection_t *io_connection) {
         connection_c->close_connection(connection_c);
     }
 
-    /* undefines the complete set of values associated both with the proxy client
-    connection and with the backend connection, no longer required */
-    set_value_hash_map(proxy_handler->connections_map, (size_t) connection, NULL, NULL);
-    set_value_hash_map(proxy_handler->reverse_map, (size_t) connection_c, NULL, NULL);
-    set_value_hash_map(proxy_handler->on_close_map, (size_t) connection, NULL, NULL);
-
     /* raises no error */
     RAISE_NO_ERROR;
 }
@@ -471,14 +476,25 @@ ERROR_CODE message_complete_callback_handler_proxy(struct http_parser_t *http_pa
             (void *) (size_t) http_parser->flags
         );
     } else {
-        write_connection_c(
+        /* updates the current proxy context so that the pending flag is set
+        this means that the message to be sent to the proxy client is in the
+        middle of the processing, any connection dropped in this state should
+        also be noticed by the proxy client */
+        handler_proxy_context->pending = TRUE;
+
+        /* writes the complete request, the buffer becomes property of the
+        connection because the request may still be there to be sent after
+        the context is released (response sent before that) */
+        write_connection(
             handler_proxy_context->connection_c,
             (unsigned char *) handler_proxy_context->buffer,
             handler_proxy_context->buffer_size,
             NULL,
-            NULL,
-            FALSE
+            NULL
         );
+        handler_proxy_context->buffer = NULL;
+        handler_proxy_context->buffer_size = 0;
+        handler_proxy_context->buffer_max_size = 0;
     }
 
     /* raises no error as no problem has arised from the
@@ -611,12 +627,6 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     parameters->on_close = close_backend_handler;
     parameters->parameters = (void *) handler_proxy_context;
 
-    /* updates the current proxy context so that the pending flag is set
-    this means that the message to be sent to the proxy client is in the
-    middle of the processing, any connection dropped in this state should
-    also drop the connection to the proxy client */
-    handler_proxy_context->pending = TRUE;
-
     /* sets the initial values for the number of bytes pending in the write
     buffer to be writen this value will be used to control the read stream
     of the backend server, in order to avoid flooding */
@@ -764,6 +774,8 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
     struct handler_proxy_context_t *handler_proxy_context;
     struct connection_t *connection_s;
     struct io_connection_t *io_connection_s;
+    struct http_connection_t *http_connection_s;
+    unsigned char flags;
 
     /* reserves space for both the top level HTTP handler structure and the
     concrete proxy handler structure containing the specifics of the proxy and
@@ -799,6 +811,11 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
         (void **) &connection_s
     );
 
+    /* in case there's no longer a service connection associated with the
+    backend connection there's nothing else to be done, the service connection
+    is the one that is being closed */
+    if(connection_s == NULL) { RAISE_NO_ERROR; }
+
     /* uses the service connection to retrieve the currently associated
     on close function callback in order to restore it */
     get_value_hash_map(
@@ -819,6 +836,7 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
     set_value_hash_map(proxy_handler->connections_map, (size_t) connection_s, NULL, NULL);
     set_value_hash_map(proxy_handler->reverse_map, (size_t) connection, NULL, NULL);
     set_value_hash_map(proxy_handler->on_close_map, (size_t) connection_s, NULL, NULL);
+    set_value_hash_map(proxy_handler->pass_map, (size_t) connection_s, NULL, NULL);
 
     /* in case the custom parameters are set the connection is talking
     with the backend server and so the connection must be correctly and
@@ -833,16 +851,36 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
 
         /* in case there's data currently pending then the final connection cleanup
         operation has not been yet scheduled, so one must be scheduled to close
-        the service (proxy client) connection */
+        the service (proxy client) connection, in case no part of the response has
+        been sent an error response is still possible */
         if(handler_proxy_context->pending) {
-            write_connection_c(
-                connection,
-                (unsigned char *) "",
-                0,
-                _cleanup_handler_proxy,
-                NULL,
-                FALSE
-            );
+            handler_proxy_context->pending = FALSE;
+            http_connection_s = (struct http_connection_t *) io_connection_s->lower;
+            flags = http_connection_s->http_parser->flags;
+
+            if(handler_proxy_context->sent) {
+                write_connection_c(
+                    connection_s,
+                    (unsigned char *) "",
+                    0,
+                    _cleanup_handler_proxy,
+                    NULL,
+                    FALSE
+                );
+            } else {
+                write_http_error(
+                    connection_s,
+                    NULL,
+                    0,
+                    HTTP11,
+                    502,
+                    "Bad gateway",
+                    "Invalid proxy response",
+                    flags & FLAG_KEEP_ALIVE ? KEEP_ALIVE : KEEP_CLOSE,
+                    _cleanup_handler_proxy,
+                    (void *) (size_t) flags
+                );
+            }
         }
     }
 
@@ -916,13 +954,12 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
     buffer of the proxy and then flushes (writes) the output buffer to
     the proxy client connection (propagation) */
     write_proxy_out_buffer(handler_proxy_context, "\r\n", 2);
-    write_connection_c(
+    write_connection(
         connection,
         (unsigned char *) handler_proxy_context->out_buffer,
         handler_proxy_context->out_buffer_size,
         _pending_handler_proxy,
-        (void *) handler_proxy_context,
-        FALSE
+        (void *) handler_proxy_context
     );
 
     /* adds the size of the current data to the counter of bytes
@@ -930,6 +967,10 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
     the maximum allowed and the read enabled in the client connection
     disables the read operations in the backend connection (avoids flooding) */
     handler_proxy_context->pending_write += handler_proxy_context->out_buffer_size;
+    handler_proxy_context->out_buffer = NULL;
+    handler_proxy_context->out_buffer_size = 0;
+    handler_proxy_context->out_buffer_max_size = 0;
+    handler_proxy_context->sent = TRUE;
     if(connection_c != NULL && connection_c->read_registered == TRUE &&\
         handler_proxy_context->pending_write >= VIRIATUM_MAX_READ) {
         connection_c->unregister_read(connection_c);
@@ -966,7 +1007,7 @@ ERROR_CODE body_callback_backend(struct http_parser_t *http_parser, const unsign
     the maximum allowed and the read enabled in the client connection
     disables the read operations in the backend connection (avoids flooding) */
     handler_proxy_context->pending_write += data_size;
-    if(connection_c->read_registered == TRUE &&\
+    if(connection_c != NULL && connection_c->read_registered == TRUE &&\
         handler_proxy_context->pending_write >= VIRIATUM_MAX_READ) {
         connection_c->unregister_read(connection_c);
     }
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index a7b5ed5..cf59aa1 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -202,6 +202,12 @@ typedef struct handler_proxy_context_t {
      */
     char pending;
 
+    /**
+     * If the headers of the (final) response have been sent to the client
+     * of the proxy, from then on no other response may be sent.
+     */
+    char sent;
+
     /**
      * The amount of bytes that are currently pending to be writen in the
      * client proxy from data comming from the backend server. This value
-- 
2.43.0


From b067c3dcc25db68da958b08e5bc26a33d4a42a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:43 +0000
Subject: [PATCH 39/77] fix: relay to the client exactly the response of the
 backend

---
 src/viriatum/handlers/handler_proxy.c | 140 ++++++++++++++++++++++----
 src/viriatum/handlers/handler_proxy.h |  61 +++++++++++
 src/viriatum/http/http_parser.c       |   8 +-
 3 files changed, 182 insertions(+), 27 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index a6eb5a2..02bf808 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -103,6 +103,12 @@ ERROR_CODE create_handler_proxy_context(struct handler_proxy_context_t **handler
     handler_proxy_context->out_buffer = MALLOC(1024);
     handler_proxy_context->out_buffer_size = 0;
     handler_proxy_context->out_buffer_max_size = 1024;
+    handler_proxy_context->out_header_open = FALSE;
+    handler_proxy_context->in_buffer = NULL;
+    handler_proxy_context->in_buffer_size = 0;
+    handler_proxy_context->in_buffer_max_size = 0;
+    handler_proxy_context->headers_complete = FALSE;
+    handler_proxy_context->is_head = FALSE;
     handler_proxy_context->connection = NULL;
     handler_proxy_context->connection_c = NULL;
     handler_proxy_context->pending = FALSE;
@@ -142,6 +148,7 @@ ERROR_CODE delete_handler_proxy_context(struct handler_proxy_context_t *handler_
     /* in case the output buffer for the current proxy context is
     defined it must be properly released to avoid memory leaks */
     if(handler_proxy_context->out_buffer) { FREE(handler_proxy_context->out_buffer); }
+    if(handler_proxy_context->in_buffer) { FREE(handler_proxy_context->in_buffer); }
 
     /* in case the HTTP settings structure is defined for the current
     context it must be release in order to avoid any leaks */
@@ -588,6 +595,7 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     pointer so that the internal client handlers are able to communicate "back"
     with the proxy client to send the data back */
     handler_proxy_context->connection = connection;
+    handler_proxy_context->is_head = http_parser->method == HTTP_HEAD;
 
     /* in case there's no (valid) backend defined for the location there's
     no connection to be created, an error is going to be sent */
@@ -735,6 +743,11 @@ ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned
     latter in the function */
     struct handler_proxy_context_t *handler_proxy_context;
 
+    /* allocates space for the size of the data that is ready to be parsed
+    and for the result of the parsing of it */
+    size_t data_size;
+    int processed_size = 0;
+
     /* retrieves the top level connection object from the io connection
     and then uses it to retrieve its parameters */
     struct connection_t *connection = io_connection->connection;
@@ -743,24 +756,53 @@ ERROR_CODE data_backend_handler(struct io_connection_t *io_connection, unsigned
 
     /* in case there're no custom parameters available for the current
     backend connection, the connection is already disabled (but not closed)
-    and so the data operation should be ignored */
-    if(custom_parameters == NULL) { RAISE_NO_ERROR; }
+    there was no request for the data and so the connection is not usable */
+    if(custom_parameters == NULL) {
+        connection->close_connection(connection);
+        RAISE_NO_ERROR;
+    }
 
     /* retrieves the current proxy context structure from the custom parameters
     to be used for the processing of the current data received from the backend */
     handler_proxy_context =\
         (struct handler_proxy_context_t *) custom_parameters->parameters;
 
+    /* adds the data to the one that is still to be parsed (incomplete headers) */
+    write_proxy_in_buffer(handler_proxy_context, (char *) buffer, buffer_size);
+
     /* runs the process operation (parser iteration) using the buffer that contains
     the data that has been retrieved from the backend server, this should trigger a
-    series of callbacks for the various stages of the parsing, then returns the control
-    flow to the caller function (everything went well) */
-    process_data_http_parser(
-        handler_proxy_context->http_parser,
-        handler_proxy_context->http_settings,
-        buffer,
-        buffer_size
-    );
+    series of callbacks for the various stages of the parsing, the complete headers
+    of a message are parsed at once */
+    while(handler_proxy_context->pending) {
+        data_size = handler_proxy_context->headers_complete ? handler_proxy_context->in_buffer_size :\
+            headers_size_proxy(handler_proxy_context->in_buffer, handler_proxy_context->in_buffer_size);
+        if(data_size == 0) { break; }
+        processed_size = process_data_http_parser(
+            handler_proxy_context->http_parser,
+            handler_proxy_context->http_settings,
+            (unsigned char *) handler_proxy_context->in_buffer,
+            data_size
+        );
+        if(processed_size <= 0) { processed_size = -1; break; }
+        handler_proxy_context->in_buffer_size -= processed_size;
+        memmove(
+            handler_proxy_context->in_buffer,
+            &handler_proxy_context->in_buffer[processed_size],
+            handler_proxy_context->in_buffer_size
+        );
+    }
+
+    /* in case the data is not valid, there is more of it than the response or
+    the headers don't end the backend connection is closed, it's not possible to
+    tell where in it would the next response start */
+    if(processed_size == -1 ||\
+        (!handler_proxy_context->pending && handler_proxy_context->in_buffer_size > 0) ||\
+        handler_proxy_context->in_buffer_size > VIRIATUM_MAX_READ) {
+        connection->close_connection(connection);
+    }
+
+    /* then returns the control flow to the caller function (everything went well) */
     RAISE_NO_ERROR;
 }
 
@@ -849,6 +891,17 @@ ERROR_CODE close_backend_handler(struct io_connection_t *io_connection) {
             (struct handler_proxy_context_t *) custom_parameters->parameters;
         handler_proxy_context->connection_c = NULL;
 
+        /* in case the end of the response is the end of the connection it's
+        now complete and the parser must be notified about it */
+        if(handler_proxy_context->pending) {
+            process_data_http_parser(
+                handler_proxy_context->http_parser,
+                handler_proxy_context->http_settings,
+                NULL,
+                0
+            );
+        }
+
         /* in case there's data currently pending then the final connection cleanup
         operation has not been yet scheduled, so one must be scheduled to close
         the service (proxy client) connection, in case no part of the response has
@@ -911,7 +964,16 @@ ERROR_CODE line_callback_backend(struct http_parser_t *http_parser) {
     and the equivalent status message from the pre-defined ones */
     const char *version = get_http_version_string(version_e);
     unsigned short status_code = http_parser->status_code;
-    const char *status_message = GET_HTTP_STATUS(status_code);
+    const char *status_message = NULL;
+
+    /* the fields that follow the body are not forwarded */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+
+    /* only some of the status codes have an associated message */
+    if(status_code >= 100 && status_code < 600 && status_code % 100 < 64) {
+        status_message = GET_HTTP_STATUS(status_code);
+    }
+    if(status_message == NULL) { status_message = ""; }
 
     /* writes the status line (should mimic the received one) into a local
     buffer and then writes this buffer into the output buffer */
@@ -928,6 +990,9 @@ ERROR_CODE line_callback_backend(struct http_parser_t *http_parser) {
 ERROR_CODE header_field_callback_backend(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+    if(handler_proxy_context->out_header_open) { write_proxy_out_buffer(handler_proxy_context, "\r\n", 2); }
+    handler_proxy_context->out_header_open = TRUE;
     write_proxy_out_buffer(handler_proxy_context, (char *) data, data_size);
     RAISE_NO_ERROR;
 }
@@ -935,7 +1000,13 @@ ERROR_CODE header_field_callback_backend(struct http_parser_t *http_parser, cons
 ERROR_CODE header_value_callback_backend(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
-    write_proxy_out_buffer(handler_proxy_context, ": ", 2);
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+
+    /* in case there's no header opened the value is the continuation of
+    the previous one and so it replaces the end of line of it */
+    if(handler_proxy_context->out_header_open) { write_proxy_out_buffer(handler_proxy_context, ": ", 2); }
+    else { handler_proxy_context->out_buffer_size -= 2; write_proxy_out_buffer(handler_proxy_context, " ", 1); }
+    handler_proxy_context->out_header_open = FALSE;
     write_proxy_out_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_out_buffer(handler_proxy_context, "\r\n", 2);
     RAISE_NO_ERROR;
@@ -950,6 +1021,17 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
     struct connection_t *connection = handler_proxy_context->connection;
     struct connection_t *connection_c = handler_proxy_context->connection_c;
 
+    /* checks if the response is an interim one (other will follow it) and if
+    it's one of those that never have a body */
+    unsigned short status_code = http_parser->status_code;
+    char is_interim = status_code / 100 == 1 && status_code != 101;
+    char skip_body = handler_proxy_context->is_head || status_code / 100 == 1 ||\
+        status_code == 204 || status_code == 304;
+
+    /* closes the last of the headers (there may be no value in it) */
+    if(handler_proxy_context->out_header_open) { write_proxy_out_buffer(handler_proxy_context, "\r\n", 2); }
+    handler_proxy_context->out_header_open = FALSE;
+
     /* writes the final header to body separator in the current output
     buffer of the proxy and then flushes (writes) the output buffer to
     the proxy client connection (propagation) */
@@ -970,14 +1052,15 @@ ERROR_CODE headers_complete_callback_backend(struct http_parser_t *http_parser)
     handler_proxy_context->out_buffer = NULL;
     handler_proxy_context->out_buffer_size = 0;
     handler_proxy_context->out_buffer_max_size = 0;
-    handler_proxy_context->sent = TRUE;
+    handler_proxy_context->headers_complete = TRUE;
+    if(!is_interim) { handler_proxy_context->sent = TRUE; }
     if(connection_c != NULL && connection_c->read_registered == TRUE &&\
         handler_proxy_context->pending_write >= VIRIATUM_MAX_READ) {
         connection_c->unregister_read(connection_c);
     }
 
-    /* raises no error */
-    RAISE_NO_ERROR;
+    /* raises no error, notifies the parser in case there's no body */
+    return skip_body ? 1 : 0;
 }
 
 ERROR_CODE body_callback_backend(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
@@ -991,9 +1074,12 @@ ERROR_CODE body_callback_backend(struct http_parser_t *http_parser, const unsign
 
     /* allocates a buffer of the same size of the received body
     data and then copies the data into this new buffer, then
-    writes the buffer into the current (proxy client) connection */
-    char *buffer = MALLOC(data_size);
-    memcpy(buffer, data, data_size);
+    writes the buffer into the current (proxy client) connection, in
+    case the response is sent in chunks (as announced by its headers)
+    the data must be sent as one of them */
+    char *buffer = MALLOC(data_size + 32);
+    if(http_parser->flags & FLAG_CHUNKED) { write_proxy_chunk(buffer, data, data_size, &data_size); }
+    else { memcpy(buffer, data, data_size); }
     write_connection(
         connection,
         (unsigned char *) buffer,
@@ -1023,13 +1109,24 @@ ERROR_CODE message_complete_callback_backend(struct http_parser_t *http_parser)
         (struct handler_proxy_context_t *) http_parser->context;
     struct connection_t *connection = handler_proxy_context->connection;
 
+    /* verifies if the message is sent in chunks, for such situation the
+    final (empty) one must be sent */
+    char is_chunked = http_parser->flags & FLAG_CHUNKED && !(http_parser->flags & FLAG_SKIPBODY);
+
+    /* in case the response is an interim one the final one is still to be
+    received and so the message is not yet completed */
+    if(!handler_proxy_context->sent) {
+        handler_proxy_context->headers_complete = FALSE;
+        RAISE_NO_ERROR;
+    }
+
     /* writes the final (empty value) to the connection stream so that
     the cleanup handler callback is called at the end of all the pending
     write operations, this is a required "empty" operation */
     write_connection_c(
         connection,
-        (unsigned char *) "",
-        0,
+        (unsigned char *) (is_chunked ? "0\r\n\r\n" : ""),
+        is_chunked ? 5 : 0,
         _cleanup_handler_proxy,
         (void *) (size_t) http_parser->flags,
         FALSE
@@ -1088,7 +1185,10 @@ ERROR_CODE _reset_http_parser_handler_proxy(struct http_parser_t *http_parser) {
     should discard the values in the buffer */
     handler_proxy_context->buffer_size = 0;
     handler_proxy_context->out_buffer_size = 0;
+    handler_proxy_context->in_buffer_size = 0;
+    handler_proxy_context->headers_complete = FALSE;
     handler_proxy_context->pending = FALSE;
+    handler_proxy_context->sent = FALSE;
     handler_proxy_context->pending_write = 0;
 
     /* raises no error */
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index cf59aa1..068838a 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -168,6 +168,43 @@ typedef struct handler_proxy_context_t {
      */
     size_t out_buffer_max_size;
 
+    /**
+     * If the last header value written in the output buffer is still missing,
+     * the name of the header has been written but there's no value for it.
+     */
+    char out_header_open;
+
+    /**
+     * The buffer with the data received from the backend that is still to be
+     * parsed, the headers of a response are only parsed when all of them have
+     * been received (the parser does not keep the incomplete ones).
+     */
+    char *in_buffer;
+
+    /**
+     * Current size of the input buffer, the number of bytes received that are
+     * still waiting to be parsed.
+     */
+    size_t in_buffer_size;
+
+    /**
+     * The maximum possible number of bytes that can be stored in the input
+     * buffer (amount of memory allocated for the buffer).
+     */
+    size_t in_buffer_max_size;
+
+    /**
+     * If the headers of the response have been parsed, meaning that the data
+     * being received belongs to the body of it.
+     */
+    char headers_complete;
+
+    /**
+     * If the request being handled is an head one, the response to it has
+     * no body no matter what its headers state.
+     */
+    char is_head;
+
     /**
      * The current service connection that "communicates" with the client
      * of the proxy service. This connection may be used to return the data
@@ -263,6 +300,30 @@ static __inline void write_proxy_out_buffer(struct handler_proxy_context_t *cont
     context->out_buffer_size += size;
 }
 
+static __inline void write_proxy_in_buffer(struct handler_proxy_context_t *context, char *data, size_t size) {
+    if(context->in_buffer_size + size > context->in_buffer_max_size) {
+        context->in_buffer_max_size = (context->in_buffer_size + size) * 2;
+        context->in_buffer = REALLOC(context->in_buffer, context->in_buffer_max_size);
+    }
+
+    memcpy(&context->in_buffer[context->in_buffer_size], data, size);
+    context->in_buffer_size += size;
+}
+
+static __inline size_t headers_size_proxy(const char *data, size_t size) {
+    /* retrieves the size of the data up to the (empty) line that ends
+    the headers, or zero in case such line was not received */
+    size_t index;
+
+    for(index = 0; index + 1 < size; index++) {
+        if(data[index] != '\n') { continue; }
+        if(data[index + 1] == '\n') { return index + 2; }
+        if(data[index + 1] == '\r' && index + 2 < size && data[index + 2] == '\n') { return index + 3; }
+    }
+
+    return 0;
+}
+
 static __inline void write_proxy_chunk(char *buffer, const unsigned char *data, size_t size, size_t *result_size) {
     /* writes the data as a chunk, the size of it in hexadecimal
     comes first, the buffer must have 32 extra bytes available */
diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 6c10655..6c41c48 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1562,7 +1562,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                             value so that it can be used later */
                             http_parser->_content_length = http_parser->content_length;
                         } else {
-                            if(http_parser->type == HTTP_REQUEST || http_should_keep_alive(http_parser)) {
+                            if(http_parser->type == HTTP_REQUEST || http_parser->flags & FLAG_KEEP_ALIVE) {
                                 /* assumes content-length 0 - read the next */
                                 HTTP_CALLBACK(message_complete);
                                 state = NEW_MESSAGE();
@@ -1742,12 +1742,6 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
         }
     }
 
-    if(state == STATE_BODY_IDENTITY_EOF) {
-        HTTP_CALLBACK(message_complete);
-        state = NEW_MESSAGE();
-        parse_count++;
-    }
-
     /* updates (saves) the vaious parser state values into the
     proper structure so that they may be used latter in further
     parsing stages (partial parsing) */
-- 
2.43.0


From cfeba73bbe0c88074e32c540f9ab5773f6f28736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:04 +0000
Subject: [PATCH 40/77] fix: always send an absolute path to the backend

---
 src/viriatum/handlers/handler_proxy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index 02bf808..dfd43a3 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -583,6 +583,7 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     buffer for writing */
     write_proxy_buffer(handler_proxy_context, (char *) method, strlen(method));
     write_proxy_buffer(handler_proxy_context, " ", 1);
+    if(data_size == 0 || data[0] != '/') { write_proxy_buffer(handler_proxy_context, "/", 1); }
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
     write_proxy_buffer(handler_proxy_context, " ", 1);
     write_proxy_buffer(handler_proxy_context, (char *) version, strlen(version));
-- 
2.43.0


From e3598a7ef3eb80ed5406829f459057af076a149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:39 +0000
Subject: [PATCH 41/77] fix: send a request to the backend with its own version

The version was read before being parsed, the value used was the one of the
previous request of the connection.
---
 src/viriatum/handlers/handler_proxy.c | 47 ++++++++++++++++++---------
 src/viriatum/handlers/handler_proxy.h |  1 +
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index dfd43a3..d248c86 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -380,6 +380,32 @@ ERROR_CODE url_callback_handler_proxy(struct http_parser_t *http_parser, const u
     RAISE_NO_ERROR;
 }
 
+ERROR_CODE line_callback_handler_proxy(struct http_parser_t *http_parser) {
+    /* retrieves the handler proxy context from the parser and the string
+    value of the version that has just been parsed */
+    struct handler_proxy_context_t *handler_proxy_context =\
+        (struct handler_proxy_context_t *) http_parser->context;
+    enum http_version_e version_e = get_http_version(
+        http_parser->http_major,
+        http_parser->http_minor
+    );
+    const char *version = get_http_version_string(version_e);
+
+    /* the fields that follow the body are not forwarded */
+    if(http_parser->flags & FLAG_TRAILING) { RAISE_NO_ERROR; }
+
+    /* completes the initial line of the HTTP message */
+    write_proxy_buffer(handler_proxy_context, " ", 1);
+    write_proxy_buffer(handler_proxy_context, (char *) version, strlen(version));
+    write_proxy_buffer(handler_proxy_context, "\r\n", 2);
+
+    /*@todo: can put here the extra headers to be sent to the backend */
+    write_proxy_buffer(handler_proxy_context, "X-Viriatum-Proxy:1\r\n", 20);
+
+    /* raises no error */
+    RAISE_NO_ERROR;
+}
+
 ERROR_CODE header_field_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
@@ -553,14 +579,7 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     on close handler that will be set in the associative map */
     io_connection_callback on_close;
 
-    /* retrieves the enumeration representation of the version and then
-    uses it to retrieve the string value out of it, then retrieves the
-    proper HTTP method used in the current call */
-    enum http_version_e version_e = get_http_version(
-        http_parser->http_major,
-        http_parser->http_minor
-    );
-    const char *version = get_http_version_string(version_e);
+    /* retrieves the proper HTTP method used in the current call */
     const char *method = http_method_strings[http_parser->method - 1];
 
     /* retrieves the connection from the parser parameters and then uses
@@ -579,18 +598,12 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
     struct handler_proxy_context_t *handler_proxy_context =\
         (struct handler_proxy_context_t *) http_parser->context;
 
-    /* writes the initial line of the HTTP message into the current
-    buffer for writing */
+    /* writes the first part of the initial line of the HTTP message into
+    the current buffer, the version is not known at this point */
     write_proxy_buffer(handler_proxy_context, (char *) method, strlen(method));
     write_proxy_buffer(handler_proxy_context, " ", 1);
     if(data_size == 0 || data[0] != '/') { write_proxy_buffer(handler_proxy_context, "/", 1); }
     write_proxy_buffer(handler_proxy_context, (char *) data, data_size);
-    write_proxy_buffer(handler_proxy_context, " ", 1);
-    write_proxy_buffer(handler_proxy_context, (char *) version, strlen(version));
-    write_proxy_buffer(handler_proxy_context, "\r\n", 2);
-
-    /*@todo: can put here the extra headers to be sent to the backend */
-    write_proxy_buffer(handler_proxy_context, "X-Viriatum-Proxy:1\r\n", 20);
 
     /* updates the current proxy context object with the service connection
     pointer so that the internal client handlers are able to communicate "back"
@@ -1202,6 +1215,7 @@ ERROR_CODE _set_http_settings_handler_proxy(struct http_settings_t *http_setting
     processing of HTTP parser (runtime execution) */
     http_settings->on_message_begin = message_begin_callback_handler_proxy;
     http_settings->on_url = url_callback_handler_proxy;
+    http_settings->on_line = line_callback_handler_proxy;
     http_settings->on_header_field = header_field_callback_handler_proxy;
     http_settings->on_header_value = header_value_callback_handler_proxy;
     http_settings->on_headers_complete = headers_complete_callback_handler_proxy;
@@ -1218,6 +1232,7 @@ ERROR_CODE _unset_http_settings_handler_proxy(struct http_settings_t *http_setti
     /* unsets the various callback functions from the HTTP settings */
     http_settings->on_message_begin = NULL;
     http_settings->on_url = NULL;
+    http_settings->on_line = NULL;
     http_settings->on_header_field = NULL;
     http_settings->on_header_value = NULL;
     http_settings->on_headers_complete = NULL;
diff --git a/src/viriatum/handlers/handler_proxy.h b/src/viriatum/handlers/handler_proxy.h
index 068838a..671bfd9 100644
--- a/src/viriatum/handlers/handler_proxy.h
+++ b/src/viriatum/handlers/handler_proxy.h
@@ -266,6 +266,7 @@ ERROR_CODE unset_handler_proxy(struct http_connection_t *http_connection);
 ERROR_CODE reset_handler_proxy(struct http_connection_t *http_connection);
 ERROR_CODE message_begin_callback_handler_proxy(struct http_parser_t *http_parser);
 ERROR_CODE url_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
+ERROR_CODE line_callback_handler_proxy(struct http_parser_t *http_parser);
 ERROR_CODE header_field_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
 ERROR_CODE header_value_callback_handler_proxy(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
 ERROR_CODE headers_complete_callback_handler_proxy(struct http_parser_t *http_parser);
-- 
2.43.0


From be2aacab56b70346ba86c78632e0160b6be9d374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:05 +0000
Subject: [PATCH 42/77] fix: stop reading from a connection that is not
 registered for reading

The read loop went on until the socket was drained, the pause requested by the
proxy while its client is slow had no effect.
---
 src/viriatum/stream/stream_io.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index f141fa9..8ceb50c 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -281,6 +281,11 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
     /* iterates continuously to read the data that is currently
     available in the connection for reading */
     while(TRUE) {
+        /* in case the connection is no longer registered for reading
+        (flow control) the remaining data must be kept in the socket, it's
+        going to be read once the connection is registered again */
+        if(connection->read_registered == FALSE) { break; }
+
         /* in case the current total number of bytes read during
         this read operation is greater than the expected maximum
         the read operation should be delayed so that the write
-- 
2.43.0


From de0d33c4e9d9f32c7e10fbfb5899a853160bbc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:30 +0000
Subject: [PATCH 43/77] fix: allow any number of pending connections in the
 epoll polling

The buffers had a fixed size of 1024 and were written past their end when
more connections were closed or pending in the same cycle.
---
 src/viriatum/polling/polling_epoll.c | 68 ++++++++++++++++++++++++++++
 src/viriatum/polling/polling_epoll.h | 26 +++++++++--
 2 files changed, 89 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 144383a..8481ab7 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -48,6 +48,19 @@ void create_polling_epoll(struct polling_epoll_t **polling_epoll_pointer, struct
     polling_epoll->read_outstanding_size = 0;
     polling_epoll->write_outstanding_size = 0;
 
+    /* the buffers for the pending connections start without any
+    space, they are going to grow according to the requirements */
+    polling_epoll->remove_connections = NULL;
+    polling_epoll->read_outstanding = NULL;
+    polling_epoll->write_outstanding = NULL;
+    polling_epoll->_read_outstanding = NULL;
+    polling_epoll->_write_outstanding = NULL;
+    polling_epoll->remove_connections_capacity = 0;
+    polling_epoll->read_outstanding_capacity = 0;
+    polling_epoll->write_outstanding_capacity = 0;
+    polling_epoll->_read_outstanding_capacity = 0;
+    polling_epoll->_write_outstanding_capacity = 0;
+
     /* resets the polling in the polling epoll */
     polling_epoll->polling = polling;
 
@@ -64,6 +77,14 @@ void delete_polling_epoll(struct polling_epoll_t *polling_epoll) {
     in order to avoid any memory leak problem */
     if(polling_epoll->epoll_fd) { close(polling_epoll->epoll_fd); }
 
+    /* releases the buffers of the pending connections, the ones
+    that were used (the others remain unset) */
+    if(polling_epoll->remove_connections) { FREE(polling_epoll->remove_connections); }
+    if(polling_epoll->read_outstanding) { FREE(polling_epoll->read_outstanding); }
+    if(polling_epoll->write_outstanding) { FREE(polling_epoll->write_outstanding); }
+    if(polling_epoll->_read_outstanding) { FREE(polling_epoll->_read_outstanding); }
+    if(polling_epoll->_write_outstanding) { FREE(polling_epoll->_write_outstanding); }
+
     /* releases the polling epoll */
     FREE(polling_epoll);
 }
@@ -206,6 +227,11 @@ ERROR_CODE unregister_connection_polling_epoll(
     after the io driven logic part is processed (at the end
     of the logic loop) */
     if(remove_c == TRUE) {
+        _reserve_polling_epoll(
+            &polling_epoll->remove_connections,
+            &polling_epoll->remove_connections_capacity,
+            polling_epoll->remove_connections_size + 1
+        );
         remove_connection(
             polling_epoll->remove_connections,
             &polling_epoll->remove_connections_size,
@@ -331,6 +357,11 @@ ERROR_CODE register_write_polling_epoll(struct polling_t *polling, struct connec
 
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
+    _reserve_polling_epoll(
+        &polling_epoll->write_outstanding,
+        &polling_epoll->write_outstanding_capacity,
+        polling_epoll->write_outstanding_size + 1
+    );
     polling_epoll->write_outstanding[polling_epoll->write_outstanding_size] = connection;
     polling_epoll->write_outstanding_size++;
 
@@ -355,6 +386,11 @@ ERROR_CODE add_outstanding_polling_epoll(struct polling_t *polling, struct conne
 
     /* sets the connection for the current outstanding position and
     then increments the size of the outstanding connection pending */
+    _reserve_polling_epoll(
+        &polling_epoll->read_outstanding,
+        &polling_epoll->read_outstanding_capacity,
+        polling_epoll->read_outstanding_size + 1
+    );
     polling_epoll->read_outstanding[polling_epoll->read_outstanding_size] = connection;
     polling_epoll->read_outstanding_size++;
 
@@ -372,6 +408,19 @@ ERROR_CODE poll_polling_epoll(struct polling_t *polling) {
     struct polling_epoll_t *polling_epoll =\
         (struct polling_epoll_t *) polling->lower;
 
+    /* ensures that the auxiliary buffers have space for the complete
+    set of connections that are currently pending */
+    _reserve_polling_epoll(
+        &polling_epoll->_read_outstanding,
+        &polling_epoll->_read_outstanding_capacity,
+        polling_epoll->read_outstanding_size
+    );
+    _reserve_polling_epoll(
+        &polling_epoll->_write_outstanding,
+        &polling_epoll->_write_outstanding_capacity,
+        polling_epoll->write_outstanding_size
+    );
+
     /* triggers the processing of the outstanding connection
     operations (pending operations) that meant to be done before
     the main poll operation blocks the control flow */
@@ -696,6 +745,25 @@ ERROR_CODE _call_polling_epoll(
     RAISE_NO_ERROR;
 }
 
+void _reserve_polling_epoll(
+    struct connection_t ***connections,
+    size_t *capacity,
+    size_t size
+) {
+    /* in case the buffer already has the requested space there's
+    nothing remaining to be done (returns immediately) */
+    if(size <= *capacity) { return; }
+
+    /* grows the capacity of the buffer, by at least the number of
+    events of a polling cycle, so that the requested size fits */
+    *capacity = *capacity == 0 ? VIRIATUM_MAX_EVENTS : *capacity;
+    while(*capacity < size) { *capacity *= 2; }
+    *connections = (struct connection_t **) REALLOC(
+        (void *) *connections,
+        *capacity * sizeof(struct connection_t *)
+    );
+}
+
 void _remove_outstanding_polling_epoll(
     struct connection_t **outstanding,
     size_t *outstanding_size,
diff --git a/src/viriatum/polling/polling_epoll.h b/src/viriatum/polling/polling_epoll.h
index 00eada2..e415237 100644
--- a/src/viriatum/polling/polling_epoll.h
+++ b/src/viriatum/polling/polling_epoll.h
@@ -77,7 +77,7 @@ typedef struct polling_epoll_t {
      * to be house-kept (removed) at the end
      * of the polling cycle.
      */
-    struct connection_t *remove_connections[VIRIATUM_MAX_EVENTS];
+    struct connection_t **remove_connections;
 
     /**
      * The buffer that contains the various
@@ -85,7 +85,7 @@ typedef struct polling_epoll_t {
      * be read from the socket at the begining
      * of the next poll operation.
      */
-    struct connection_t *read_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **read_outstanding;
 
     /**
      * The buffer that contains the various
@@ -93,19 +93,19 @@ typedef struct polling_epoll_t {
      * be writen to the socket at the begining
      * of the next poll operation.
      */
-    struct connection_t *write_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **write_outstanding;
 
     /**
      * Auxiliary buffer to be used in the performing
      * of the outstaind read operations.
      */
-    struct connection_t *_read_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **_read_outstanding;
 
     /**
      * Auxiliary buffer to be used in the performing
      * of the outstaind write operations.
      */
-    struct connection_t *_write_outstanding[VIRIATUM_MAX_EVENTS];
+    struct connection_t **_write_outstanding;
 
     /**
      * The size of the read connections
@@ -144,6 +144,17 @@ typedef struct polling_epoll_t {
      * at he beginning of the poll operation.
      */
     size_t write_outstanding_size;
+
+    /**
+     * The number of connections for which there is
+     * space in each of the buffers that grow, as the
+     * number of connections is not limited.
+     */
+    size_t remove_connections_capacity;
+    size_t read_outstanding_capacity;
+    size_t write_outstanding_capacity;
+    size_t _read_outstanding_capacity;
+    size_t _write_outstanding_capacity;
 } polling_epoll;
 
 void create_polling_epoll(struct polling_epoll_t **polling_epoll_pointer, struct polling_t *polling);
@@ -190,6 +201,11 @@ ERROR_CODE _outstanding_polling_epoll(
     size_t read_outstanding_size,
     size_t write_outstanding_size
 );
+void _reserve_polling_epoll(
+    struct connection_t ***connections,
+    size_t *capacity,
+    size_t size
+);
 void _remove_outstanding_polling_epoll(
     struct connection_t **outstanding,
     size_t *outstanding_size,
-- 
2.43.0


From b8133d743d989d0bbf9ac00c08261d834ae420bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:41 +0000
Subject: [PATCH 44/77] fix: accept the remaining connections after a failed
 accept

The events are edge triggered, the clients that were waiting when an accept
failed were only accepted once another one connected.
---
 src/viriatum/stream/stream_io.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 8ceb50c..99900c4 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -97,6 +97,14 @@ ERROR_CODE accept_handler_stream_io(struct connection_t *connection) {
 
         /* in case there was an error accepting the socket */
         if(SOCKET_TEST_ERROR(socket_handle)) {
+            /* in case the problem is not the lack of connections (eg:
+            connection aborted or too many open files) there may be more
+            connections waiting, no event is going to be raised for them
+            and so they must be accepted in the next cycle */
+            if(SOCKET_GET_ERROR_CODE(socket_handle) != SOCKET_WOULDBLOCK) {
+                connection->add_outstanding(connection);
+            }
+
             /* breaks the loop, nothing to be handled not possible
             to accept the connection for now */
             break;
-- 
2.43.0


From d16e5ec05862830106aaac6e29b1b3e12eacac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:28 +0000
Subject: [PATCH 45/77] fix: report a listing that could not be created

The listing of a directory that could not be opened, or without its template,
was sent as an empty one with success.
---
 src/viriatum/handlers/handler_file.c    | 26 +++++++++++++++++++++++--
 src/viriatum_commons/template/engine.c  |  7 +++++--
 src/viriatum_commons/template/handler.c | 11 +++++++++--
 src/viriatum_commons/template/handler.h |  2 +-
 4 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index a07256c..6d97580 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -406,6 +406,10 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
     unsigned int is_directory = FALSE;
     unsigned int is_redirect = FALSE;
 
+    /* allocates the result of the creation of the listing
+    of the directory, it must be checked before it's used */
+    ERROR_CODE listing_code = 0;
+
     /* allocates space for the new location value for
     redirect request cases and for the path to the
     template (for directory listing) */
@@ -540,7 +544,7 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
 
             /* lists the directory file into the directory
             entries linked list and then converts them into maps */
-            list_directory_file((char *) handler_file_context->file_path_d, directory_entries);
+            listing_code = list_directory_file((char *) handler_file_context->file_path_d, directory_entries);
             entries_to_map_file(directory_entries, &directory_entries_map);
 
             /* retrieves the current size of the url and copies into
@@ -576,7 +580,9 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             );
 
             /* processes the file as a template handler */
-            process_template_handler(template_handler, template_path);
+            if(IS_ERROR_CODE(process_template_handler(template_handler, template_path))) {
+                listing_code = RUNTIME_EXCEPTION_ERROR_CODE;
+            }
 
             /* sets the template handler in the handler file context and unsets
             the flushed flag */
@@ -718,6 +724,22 @@ ERROR_CODE message_complete_callback_handler_file(struct http_parser_t *http_par
             handler_file_context
         );
     }
+    /* in case it was not possible to create the directory list,
+    an incomplete one must not be returned to the client */
+    else if(is_directory && IS_ERROR_CODE(listing_code)) {
+        write_http_error(
+            connection,
+            headers_buffer,
+            VIRIATUM_HTTP_SIZE,
+            HTTP11,
+            500,
+            "Internal Server Error",
+            "Problem listing directory",
+            keep_alive ? KEEP_ALIVE : KEEP_CLOSE,
+            _cleanup_handler_file,
+            handler_file_context
+        );
+    }
     /* in case the current situation is a directory list */
     else if(is_directory) {
         /* writes the HTTP static headers to the response */
diff --git a/src/viriatum_commons/template/engine.c b/src/viriatum_commons/template/engine.c
index cc44f07..1dd92aa 100644
--- a/src/viriatum_commons/template/engine.c
+++ b/src/viriatum_commons/template/engine.c
@@ -117,8 +117,11 @@ ERROR_CODE process_template_engine(struct template_engine_t *template_engine, st
 
     /* in case the file is not correctly loaded */
     if(file == NULL) {
-        /* returns immediately (no file found) */
-        RAISE_NO_ERROR;
+        /* raises an error (no file found) */
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem loading file"
+        );
     }
 
     /* then sets the buffer on the file for reading, this
diff --git a/src/viriatum_commons/template/handler.c b/src/viriatum_commons/template/handler.c
index 2b5ed36..f2e5a79 100644
--- a/src/viriatum_commons/template/handler.c
+++ b/src/viriatum_commons/template/handler.c
@@ -216,7 +216,10 @@ void delete_template_parameter(struct template_parameter_t *template_parameter)
     FREE(template_parameter);
 }
 
-void process_template_handler(struct template_handler_t *template_handler, unsigned char *file_path) {
+ERROR_CODE process_template_handler(struct template_handler_t *template_handler, unsigned char *file_path) {
+     /* allocates the value for the result of the processing */
+    ERROR_CODE return_value;
+
      /* allocates space for the template engine */
     struct template_engine_t *template_engine;
 
@@ -253,7 +256,7 @@ void process_template_handler(struct template_handler_t *template_handler, unsig
     /* processes the file as a template engine and then uses the
     created node structure to traverse for string buffer output,
     starting at the root as there may be tags left open */
-    process_template_engine(template_engine, template_settings, file_path);
+    return_value = process_template_engine(template_engine, template_settings, file_path);
     traverse_node_buffer(template_handler, root_node);
 
     /* in case there's a tag that was not terminated its node is not
@@ -276,6 +279,10 @@ void process_template_handler(struct template_handler_t *template_handler, unsig
 
     /* deletes the template engine */
     delete_template_engine(template_engine);
+
+    /* returns the result of the processing of the file, in case
+    there was a problem the result is not complete */
+    return return_value;
 }
 
 void assign_template_handler(struct template_handler_t *template_handler, unsigned char *name, struct type_t *value) {
diff --git a/src/viriatum_commons/template/handler.h b/src/viriatum_commons/template/handler.h
index aca5657..b5f1e00 100644
--- a/src/viriatum_commons/template/handler.h
+++ b/src/viriatum_commons/template/handler.h
@@ -170,7 +170,7 @@ VIRIATUM_EXPORT_PREFIX void create_template_node(struct template_node_t **templa
 VIRIATUM_EXPORT_PREFIX void delete_template_node(struct template_node_t *template_node);
 VIRIATUM_EXPORT_PREFIX void create_template_parameter(struct template_parameter_t **template_parameter_pointer);
 VIRIATUM_EXPORT_PREFIX void delete_template_parameter(struct template_parameter_t *template_parameter);
-VIRIATUM_EXPORT_PREFIX void process_template_handler(struct template_handler_t *template_handler, unsigned char *file_path);
+VIRIATUM_EXPORT_PREFIX ERROR_CODE process_template_handler(struct template_handler_t *template_handler, unsigned char *file_path);
 VIRIATUM_EXPORT_PREFIX void assign_template_handler(struct template_handler_t *template_handler, unsigned char *name, struct type_t *value);
 VIRIATUM_EXPORT_PREFIX void assign_integer_template_handler(struct template_handler_t *template_handler, unsigned char *name, int value);
 VIRIATUM_EXPORT_PREFIX void assign_string_template_handler(struct template_handler_t *template_handler, unsigned char *name, char *value);
-- 
2.43.0


From 8e7c37b266615d64332bba915a74f7afad7d0b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:41 +0000
Subject: [PATCH 46/77] fix: reject a request whose end is ambiguous

---
 src/viriatum/http/http_parser.c | 60 ++++++++++++++++++++++++++++++---
 src/viriatum/http/http_parser.h |  1 +
 2 files changed, 56 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 6c41c48..61e5484 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1280,6 +1280,14 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
                 index = 0;
 
+                /* the length of the contents of a request must be known,
+                these headers are not valid without a value in the line */
+                if((byte == CR || byte == LF) &&\
+                    (header_state == HEADER_STATE_TRANSFER_ENCODING ||\
+                    header_state == HEADER_STATE_CONTENT_LENGTH)) {
+                    if(http_parser->type == HTTP_REQUEST) { goto error; }
+                }
+
                 if(byte == CR) {
                     HTTP_CALLBACK_DATA(header_value);
                     header_state = HEADER_STATE_GENERAL;
@@ -1311,6 +1319,9 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         if('c' == byte_token) {
                             header_state = HEADER_STATE_MATCHING_TRANSFER_ENCODING_CHUNKED;
                         } else {
+                            /* the end of a request in an unknown encoding
+                            can't be found, it must not be interpreted */
+                            if(http_parser->type == HTTP_REQUEST) { goto error; }
                             header_state = HEADER_STATE_GENERAL;
                         }
 
@@ -1323,6 +1334,12 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                             goto error;
                         }
 
+                        /* more than one length for the same request is
+                        ambiguous, and so not valid */
+                        if(http_parser->content_length != -1) {
+                            if(http_parser->type == HTTP_REQUEST) { goto error; }
+                        }
+
                         http_parser->content_length = byte - '0';
 
                         /* breaks the switch */
@@ -1379,6 +1396,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
                     case HEADER_STATE_CONTENT_LENGTH:
                         if(byte == ' ') {
+                            header_state = HEADER_STATE_CONTENT_LENGTH_END;
                             break;
                         }
 
@@ -1398,11 +1416,21 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         /* breaks the switch */
                         break;
 
+                    /* only spaces may follow the length */
+                    case HEADER_STATE_CONTENT_LENGTH_END:
+                        if(byte != ' ') {
+                            goto error;
+                        }
+
+                        /* breaks the switch */
+                        break;
+
                     /* Transfer-Encoding: chunked */
                     case HEADER_STATE_MATCHING_TRANSFER_ENCODING_CHUNKED:
                         index++;
 
                         if(index > sizeof(HTTP_CHUNKED) - 1 || byte_token != HTTP_CHUNKED[index]) {
+                            if(http_parser->type == HTTP_REQUEST) { goto error; }
                             header_state = HEADER_STATE_GENERAL;
                         } else if(index == sizeof(HTTP_CHUNKED) - 2) {
                             header_state = HEADER_STATE_TRANSFER_ENCODING_CHUNKED;
@@ -1438,6 +1466,14 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         break;
 
                     case HEADER_STATE_TRANSFER_ENCODING_CHUNKED:
+                        if(byte != ' ') {
+                            if(http_parser->type == HTTP_REQUEST) { goto error; }
+                            header_state = HEADER_STATE_GENERAL;
+                        }
+
+                        /* breaks the switch */
+                        break;
+
                     case HEADER_STATE_CONNECTION_KEEP_ALIVE:
                     case HEADER_STATE_CONNECTION_CLOSE:
                         if(byte != ' ') {
@@ -1461,7 +1497,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
             case STATE_HEADER_ALMOST_DONE:
                 header_almost_done:
-                    STRICT_CHECK(byte != LF);
+                    if(byte != LF) { goto error; }
 
                     state = STATE_HEADER_VALUE_LWS;
 
@@ -1478,6 +1514,12 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                             /* breaks the switch */
                             break;
 
+                        case HEADER_STATE_MATCHING_TRANSFER_ENCODING_CHUNKED:
+                            if(http_parser->type == HTTP_REQUEST) { goto error; }
+
+                            /* breaks the switch */
+                            break;
+
                         case HEADER_STATE_TRANSFER_ENCODING_CHUNKED:
                             http_parser->flags |= FLAG_CHUNKED;
 
@@ -1494,6 +1536,14 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
             case STATE_HEADER_VALUE_LWS:
                 if(byte == ' ' || byte == '\t') {
+                    /* the values that define where the message ends
+                    must be in a single line, otherwise are ambiguous */
+                    if(header_state == HEADER_STATE_CONTENT_LENGTH ||\
+                        header_state == HEADER_STATE_CONTENT_LENGTH_END ||\
+                        header_state == HEADER_STATE_TRANSFER_ENCODING_CHUNKED) {
+                        goto error;
+                    }
+
                     state = STATE_HEADER_VALUE_START;
                 } else {
                     state = STATE_HEADER_FIELD_START;
@@ -1505,7 +1555,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
             case STATE_HEADERS_ALMOST_DONE:
                 headers_almost_done:
-                    STRICT_CHECK(byte != LF);
+                    if(byte != LF) { goto error; }
 
                     if(http_parser->flags & FLAG_TRAILING) {
                         /* End of a chunked request */
@@ -1684,7 +1734,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
             case STATE_CHUNK_SIZE_ALMOST_DONE:
                 assert(http_parser->flags & FLAG_CHUNKED);
-                STRICT_CHECK(byte != LF);
+                if(byte != LF) { goto error; }
 
                 read_count = 0;
 
@@ -1721,7 +1771,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
             case STATE_CHUNK_DATA_ALMOST_DONE:
                 assert(http_parser->flags & FLAG_CHUNKED);
-                STRICT_CHECK(byte != CR);
+                if(byte != CR) { goto error; }
                 state = STATE_CHUNK_DATA_DONE;
 
                 /* breaks the switch */
@@ -1729,7 +1779,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
             case STATE_CHUNK_DATA_DONE:
                 assert(http_parser->flags & FLAG_CHUNKED);
-                STRICT_CHECK(byte != LF);
+                if(byte != LF) { goto error; }
                 state = STATE_CHUNK_SIZE_START;
 
                 /* breaks the switch */
diff --git a/src/viriatum/http/http_parser.h b/src/viriatum/http/http_parser.h
index 16f131e..3462e01 100644
--- a/src/viriatum/http/http_parser.h
+++ b/src/viriatum/http/http_parser.h
@@ -413,6 +413,7 @@ typedef enum http_header_state_e {
     HEADER_STATE_MATCHING_CONNECTION_KEEP_ALIVE,
     HEADER_STATE_MATCHING_CONNECTION_CLOSE,
 
+    HEADER_STATE_CONTENT_LENGTH_END,
     HEADER_STATE_TRANSFER_ENCODING_CHUNKED,
     HEADER_STATE_CONNECTION_KEEP_ALIVE,
     HEADER_STATE_CONNECTION_CLOSE
-- 
2.43.0


From 0da7373d843ad59a1fa0c78b2da56fa5340c1de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:06 +0000
Subject: [PATCH 47/77] fix: do not change the data being digested with sha1

---
 src/viriatum_commons/checksum/sha1.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/checksum/sha1.c b/src/viriatum_commons/checksum/sha1.c
index 1dbfa2b..04e95ba 100644
--- a/src/viriatum_commons/checksum/sha1.c
+++ b/src/viriatum_commons/checksum/sha1.c
@@ -92,9 +92,12 @@ void final_sha1(struct sha1_context_t *context, unsigned char *digest) {
 
 void _transform_sha1(unsigned int state[5], const unsigned char buffer[64]) {
     unsigned int a, b, c, d, e;
-    union sha1_block_t *block;
+    union sha1_block_t _block;
+    union sha1_block_t *block = &_block;
 
-    block = (union sha1_block_t *) buffer;
+    /* works over a copy of the data, the schedule of the
+    message is expanded in place and the data is not ours */
+    memcpy(_block.c, buffer, sizeof(_block.c));
 
     /* copies context state to working vars */
     a = state[0];
@@ -135,4 +138,5 @@ void _transform_sha1(unsigned int state[5], const unsigned char buffer[64]) {
     /* wipes out all the variable to avoid any reusage
     of it (private usage) */
     a = b = c = d = e = 0;
+    memset(&_block, 0, sizeof(_block));
 }
-- 
2.43.0


From bd470ac5bef9ebfb8ae288e18eaa189516e1e3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:52 +0000
Subject: [PATCH 48/77] fix: count the overwritten bytes of a memory stream
 only once

---
 src/viriatum_commons/stream/memory_stream.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/stream/memory_stream.c b/src/viriatum_commons/stream/memory_stream.c
index 54de954..fa35aa5 100644
--- a/src/viriatum_commons/stream/memory_stream.c
+++ b/src/viriatum_commons/stream/memory_stream.c
@@ -67,6 +67,7 @@ void delete_memory_stream(struct memory_stream_t *memory_stream) {
     must be released and then releases the memory of the
     proper memory stream structure (avoid memory leaks) */
     if(memory_stream->buffer) { FREE(memory_stream->buffer); }
+    delete_stream(memory_stream->stream);
     FREE(memory_stream);
 }
 
@@ -78,6 +79,7 @@ void open_memory_stream(struct stream_t *stream) {
     struct memory_stream_t *memory_stream =\
         (struct memory_stream_t *) stream->lower;
     size_t buffer_size = SIZE_MEMORY_STREAM * sizeof(unsigned char);
+    if(memory_stream->buffer) { FREE(memory_stream->buffer); }
     memory_stream->buffer = (unsigned char *) MALLOC(buffer_size);
     memory_stream->buffer_size = SIZE_MEMORY_STREAM;
     memory_stream->size = 0;
@@ -128,7 +130,12 @@ size_t write_memory_stream(struct stream_t *stream, unsigned char *buffer, size_
     pointer = &memory_stream->buffer[memory_stream->position];
     memcpy(pointer, buffer, size);
     memory_stream->position += size;
-    memory_stream->size += size;
+
+    /* the size only grows with the part of the data that
+    was written past the end of the current contents */
+    if(memory_stream->position > memory_stream->size) {
+        memory_stream->size = memory_stream->position;
+    }
 
     return size;
 }
@@ -139,7 +146,11 @@ void flush_memory_stream(struct stream_t *stream) {
 void seek_memory_stream(struct stream_t *stream, size_t target) {
     struct memory_stream_t *memory_stream =\
         (struct memory_stream_t *) stream->lower;
-    memory_stream->position = target;
+
+    /* the position may never be larger than the size
+    of the filled buffer, there's nothing there */
+    memory_stream->position = target > memory_stream->size ?\
+        memory_stream->size : target;
 }
 
 size_t size_memory_stream(struct stream_t *stream) {
-- 
2.43.0


From 1e6b644bd164fbe309e1573aea6c51c9eab5515c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:52 +0000
Subject: [PATCH 49/77] fix: seek back any number of bits and read past the end
 of a bit stream

---
 src/viriatum_commons/stream/bit_stream.c | 50 +++++++++++++++---------
 src/viriatum_commons/stream/bit_stream.h |  8 ++++
 2 files changed, 39 insertions(+), 19 deletions(-)

diff --git a/src/viriatum_commons/stream/bit_stream.c b/src/viriatum_commons/stream/bit_stream.c
index c75f693..a2aabeb 100644
--- a/src/viriatum_commons/stream/bit_stream.c
+++ b/src/viriatum_commons/stream/bit_stream.c
@@ -68,6 +68,7 @@ void create_bit_stream(struct bit_stream_t **bit_stream_pointer, struct stream_t
     bit_stream->bit_counter_write = 0;
     bit_stream->byte_counter_read = 0;
     bit_stream->byte_current_read = 0;
+    bit_stream->byte_size_read = 0;
     bit_stream->byte_counter_write = 0;
 
     /* sets the bit stream in the bit stream pointer */
@@ -75,7 +76,8 @@ void create_bit_stream(struct bit_stream_t **bit_stream_pointer, struct stream_t
 }
 
 void delete_bit_stream(struct bit_stream_t *bit_stream) {
-    /* releases the bit stream */
+    /* releases the buffer and then the bit stream */
+    FREE(bit_stream->buffer);
     FREE(bit_stream);
 }
 
@@ -120,7 +122,6 @@ void seek_bit_stream(
     used in case a stream seek operation is required */
     size_t position;
     size_t diff_read;
-    size_t total_read;
     struct stream_t *stream;
 
     /* allocates space for temporary variables that are going to be
@@ -176,36 +177,30 @@ void seek_bit_stream(
         the stream, this is required when the amount of bytes to be
         skipped back is greater than the amount of bytes that have been
         already read from the current read buffer */
-        need_read = byte_count >= bit_stream->byte_current_read;
+        need_read = (size_t) byte_count >= bit_stream->byte_current_read;
 
         /* in case there's a need to read from the underlying stram the
         operation should reset and move the buffer and reset the counters */
         if(need_read) {
-            /* calculates the size of the current read buffer by adding the
-            current byte (index) to the counter and then calculates the diff
-            to the initial position of the stream by calculating the diference
-            between the current index position and the number of bytes to be
-            set back plus one (this is the distance to the initial byte in
-            the last read operation) */
-            total_read = bit_stream->byte_current_read + bit_stream->byte_counter_read;
-            diff_read = bit_stream->byte_current_read - (size_t) byte_count + 1;
+            /* calculates the distance from the first byte of the current read
+            buffer back to the target byte, using the number of bytes to be
+            set back and the index of the current byte (the one before the
+            current index position) */
+            diff_read = (size_t) byte_count - (bit_stream->byte_current_read - 1);
 
             /* retrieves the reference to the underlying stream and uses it to
             gather its current position and recalculates the new position using
             the calculated diff then uses this value to update the stream position */
             stream = bit_stream->stream;
             position = stream->tell(stream);
-            position -= total_read + diff_read;
+            position -= bit_stream->byte_size_read + diff_read;
             stream->seek(stream, position);
 
             /* reads the default (pre-defined) value of bytes from the stream and updated
             the counter and the current index values accordingly taking already into account
             that a new value is going to be read from the buffer */
-            bit_stream->byte_counter_read = stream->read(
-                stream,
-                bit_stream->buffer,
-                BIT_STREAM_BUFFER_SIZE
-            ) - 1;
+            _read_bit_stream(bit_stream);
+            bit_stream->byte_counter_read--;
             bit_stream->byte_current_read = 1;
         }
         /* otherwise the only the read buffer is moved back without having to
@@ -213,8 +208,8 @@ void seek_bit_stream(
         else {
             /* decrements the current byte for read by the number of bytes
             and increments the counter by the same amount (buffer move) */
-            bit_stream->byte_current_read -= (unsigned char) byte_count;
-            bit_stream->byte_counter_read += (unsigned char) byte_count;
+            bit_stream->byte_current_read -= (size_t) byte_count;
+            bit_stream->byte_counter_read += (size_t) byte_count;
         }
 
         /* reads the new current byte value from the buffer with the current
@@ -392,6 +387,17 @@ void flush_read_bit_stream(struct bit_stream_t *bit_stream) {
         _read_bit_stream(bit_stream);
     }
 
+    /* in case there's nothing more in the stream the bits
+    past its end are considered to be zeros, the (larger) buffer
+    is kept so that it's still possible to seek back */
+    if(bit_stream->byte_counter_read == 0) {
+        if(bit_stream->byte_current_read == BIT_STREAM_BUFFER_SIZE * 2) {
+            bit_stream->byte_current_read--;
+        }
+        bit_stream->buffer[bit_stream->byte_current_read] = 0;
+        bit_stream->byte_counter_read = 1;
+    }
+
     /* retrieves the current byte to be read from the buffer
     associated with the underlying bit stream (read operation) */
     bit_stream->current_byte_read = bit_stream->buffer[bit_stream->byte_current_read];
@@ -445,6 +451,12 @@ void _read_bit_stream(struct bit_stream_t *bit_stream) {
         bit_stream->buffer,
         BIT_STREAM_BUFFER_SIZE
     );
+
+    /* at the end of the stream the buffer is not changed, so
+    that the last bytes of the stream may still be seeked */
+    if(bit_stream->byte_counter_read == 0) { return; }
+
+    bit_stream->byte_size_read = bit_stream->byte_counter_read;
     bit_stream->byte_current_read = 0;
 }
 
diff --git a/src/viriatum_commons/stream/bit_stream.h b/src/viriatum_commons/stream/bit_stream.h
index d7264de..71fcb5a 100644
--- a/src/viriatum_commons/stream/bit_stream.h
+++ b/src/viriatum_commons/stream/bit_stream.h
@@ -137,6 +137,14 @@ typedef struct bit_stream_t {
      */
     size_t byte_current_read;
 
+    /**
+     * The number of bytes in the buffer that were
+     * effectively read from the stream, there may
+     * be less than the ones already consumed, in
+     * case bits past the end have been asked.
+     */
+    size_t byte_size_read;
+
     /**
      * The counter (of bytes) used for the writting
      * procedure in the current bit stream.
-- 
2.43.0


From addafe29a66b479aa397af4bbeed569d820cb8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:18 +0000
Subject: [PATCH 50/77] fix: code any sequence of bytes using huffman and
 decode it back

---
 src/viriatum_commons/compression/huffman.c | 34 ++++++++++++++++++----
 src/viriatum_commons/compression/huffman.h | 11 +++++--
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/viriatum_commons/compression/huffman.c b/src/viriatum_commons/compression/huffman.c
index 53a1ab2..2973962 100644
--- a/src/viriatum_commons/compression/huffman.c
+++ b/src/viriatum_commons/compression/huffman.c
@@ -98,6 +98,7 @@ void encode_huffman(struct huffman_t *huffman, struct stream_t *in, struct strea
     size_t count;
     size_t index;
     unsigned char byte;
+    unsigned char bits;
     struct huffman_node_t *node;
     struct bit_stream_t *bit_stream;
     unsigned char buffer[HUFFMAN_BUFFER_SIZE];
@@ -137,10 +138,19 @@ void encode_huffman(struct huffman_t *huffman, struct stream_t *in, struct strea
             node and then writes into the bit stream the code representing
             the current byte using the current huffman tree */
             huffman->bit_count += node->bit_count;
+            bits = node->bit_count;
+            while(bits > HUFFMAN_WORD_SIZE) {
+                bits -= HUFFMAN_WORD_SIZE;
+                write_word_bit_stream(
+                    bit_stream,
+                    (unsigned short) (node->code >> bits),
+                    HUFFMAN_WORD_SIZE
+                );
+            }
             write_word_bit_stream(
                 bit_stream,
-                node->code,
-                node->bit_count
+                (unsigned short) (node->code & ((1 << bits) - 1)),
+                bits
             );
         }
     }
@@ -232,7 +242,7 @@ void decode_table_huffman(struct huffman_t *huffman, struct stream_t *in, struct
 
     /* closes the output stream flusing all of it's data and then
     closes the input bit based stream also*/
-    in->close(out);
+    out->close(out);
     close_bit_stream(bit_stream);
 
     /* deletes the bit stream structure, avoiding the leak of any
@@ -304,7 +314,8 @@ void decode_tree_huffman(struct huffman_t *huffman, struct stream_t *in, struct
                 bit is odd or even and selects the apropriate next
                 node value (tree percolation step) */
                 bit = code >> (HUFFMAN_BYTE_SIZE - bit_count);
-                if(bit & 1) { node = node->right; }
+                if(node->left == NULL) { /* single symbol, root is leaf */ }
+                else if(bit & 1) { node = node->right; }
                 else { node = node->left; }
 
                 /* verifies if the current selected node is a leaf
@@ -355,6 +366,10 @@ void generate_prefix_huffman(struct huffman_t *huffman) {
     size_t prefix_range = 1 << huffman->prefix_size;
     size_t prefix_size = prefix_range * sizeof(unsigned char);
 
+    /* the codes that do not fit a word can't be used to index
+    the prefix tables, the tree is going to be used instead */
+    if(huffman->prefix_size > HUFFMAN_WORD_SIZE) { return; }
+
     /* allocates space for each of the prefix tables, one for
     the prefix to code association and other for the prefix to
     extra bits association, the allocation is dynamic using the
@@ -464,6 +479,15 @@ void generate_table_huffman(struct huffman_t *huffman, struct stream_t *stream)
     pop_priority_queue(queue, (void **) &huffman->root);
     delete_priority_queue(queue);
 
+    /* in case there are no symbols at all there's no tree, and in
+    case there's only one symbol it must take one bit anyway, otherwise
+    the number of times it occurs would be lost */
+    if(huffman->root == NULL) { return; }
+    if(huffman->root->left == NULL) {
+        allocate_tree_huffman(huffman, huffman->root, 0, 1);
+        return;
+    }
+
     /* runs the allocation algorithm in the huffman tree so that
     each of the nodes is represented by a binary number that is
     inversely big as its size (huffman strategy) */
@@ -516,7 +540,7 @@ void calc_freqs_huffman(struct huffman_t *huffman, struct stream_t *stream) {
 void allocate_tree_huffman(
     struct huffman_t *huffman,
     struct huffman_node_t *node,
-    unsigned short code,
+    unsigned long long code,
     unsigned char bit_count
 ) {
     unsigned char is_larger;
diff --git a/src/viriatum_commons/compression/huffman.h b/src/viriatum_commons/compression/huffman.h
index 54f6c93..9bce415 100644
--- a/src/viriatum_commons/compression/huffman.h
+++ b/src/viriatum_commons/compression/huffman.h
@@ -59,6 +59,13 @@
  */
 #define HUFFMAN_SYMBOL_SIZE 256
 
+/**
+ * The maximum number of bits of a code that may be
+ * written at once, this is also the largest prefix
+ * for which the prefix tables may be created.
+ */
+#define HUFFMAN_WORD_SIZE 16
+
 /**
  * Structure that describes an element (node) that
  * is going to be used in the construction of the
@@ -69,7 +76,7 @@ typedef struct huffman_node_t {
     struct huffman_node_t *right;
     size_t value;
     unsigned char symbol;
-    unsigned short code;
+    unsigned long long code;
     unsigned char bit_count;
 } huffman_node;
 
@@ -154,7 +161,7 @@ VIRIATUM_EXPORT_PREFIX void calc_freqs_huffman(struct huffman_t *huffman, struct
 VIRIATUM_EXPORT_PREFIX void allocate_tree_huffman(
     struct huffman_t *huffman,
     struct huffman_node_t *node,
-    unsigned short code,
+    unsigned long long code,
     unsigned char bit_count
 );
 VIRIATUM_EXPORT_PREFIX void _fill_prefix_huffman(
-- 
2.43.0


From 02de9c7101ae90570e88e0c7563550791a42acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:37 +0000
Subject: [PATCH 51/77] fix: decode only complete bencoding values and refuse
 the malformed ones

---
 src/viriatum/stream/stream_httpc.c        |   3 +-
 src/viriatum/system/torrent.c             |  20 +-
 src/viriatum_commons/encoding/bencoding.c | 372 +++++++++++-----------
 src/viriatum_commons/encoding/bencoding.h |   1 +
 4 files changed, 207 insertions(+), 189 deletions(-)

diff --git a/src/viriatum/stream/stream_httpc.c b/src/viriatum/stream/stream_httpc.c
index 0e235be..4dc681a 100644
--- a/src/viriatum/stream/stream_httpc.c
+++ b/src/viriatum/stream/stream_httpc.c
@@ -37,7 +37,8 @@
 ERROR_CODE body_callback_handler_client(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size) {
     struct type_t *type;
 
-    decode_bencoding((unsigned char *) data, data_size, &type);
+    ERROR_CODE return_value = decode_bencoding((unsigned char *) data, data_size, &type);
+    if(IS_ERROR_CODE(return_value)) { RAISE_AGAIN(return_value); }
     print_type(type);
     free_type(type);
 
diff --git a/src/viriatum/system/torrent.c b/src/viriatum/system/torrent.c
index 0961794..245158c 100644
--- a/src/viriatum/system/torrent.c
+++ b/src/viriatum/system/torrent.c
@@ -103,11 +103,21 @@ ERROR_CODE _create_tracker_connection(
     /* retries the info part of the torrent description, this
     value contains "valuable" information describing the file
     and may be used to generate the info hash */
-    get_value_string_sort_map(
-        type->value.value_sort_map,
-        (unsigned char *) "info",
-        (void **) &_type
-    );
+    _type = NULL;
+    if(type->type == SORT_MAP_TYPE) {
+        get_value_string_sort_map(
+            type->value.value_sort_map,
+            (unsigned char *) "info",
+            (void **) &_type
+        );
+    }
+    if(_type == NULL) {
+        free_type(type);
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem reading torrent file"
+        );
+    }
 
     /* encodes the info dictionary into bencoding and calculates
     the sha1 value of the encoded value as the info hash value
diff --git a/src/viriatum_commons/encoding/bencoding.c b/src/viriatum_commons/encoding/bencoding.c
index b2b5334..6596d0b 100644
--- a/src/viriatum_commons/encoding/bencoding.c
+++ b/src/viriatum_commons/encoding/bencoding.c
@@ -77,8 +77,9 @@ void create_bencoding_handler(struct bencoding_handler_t **bencoding_handler_poi
 void delete_bencoding_handler(struct bencoding_handler_t *bencoding_handler) {
     /* in case the sequence stack and the key stack are defined releases
     their memory to avoid any leaks */
-    if(bencoding_handler->sequence_stack) { FREE(bencoding_handler->sequence_stack); }
-    if(bencoding_handler->key_stack) { FREE(bencoding_handler->key_stack); }
+    if(bencoding_handler->sequence_stack) { delete_linked_list(bencoding_handler->sequence_stack); }
+    if(bencoding_handler->key_stack) { delete_linked_list(bencoding_handler->key_stack); }
+    if(bencoding_handler->key) { FREE(bencoding_handler->key); }
 
     /* releases the bencoding handler */
     FREE(bencoding_handler);
@@ -113,6 +114,9 @@ ERROR_CODE encode_bencoding(struct type_t *type, unsigned char **encoded_puffer_
 ERROR_CODE decode_bencoding(unsigned char *encoded_buffer, size_t encoded_buffer_length, struct type_t **type_pointer) {
     /* allocates space for the general (temporary) variables
     to be used durring the parsing of the buffer */
+    ERROR_CODE return_value;
+    unsigned char *key;
+    struct type_t *sequence;
     struct bencoding_engine_t *bencoding_engine;
     struct bencoding_handler_t *bencoding_handler;
 
@@ -120,17 +124,46 @@ ERROR_CODE decode_bencoding(unsigned char *encoded_buffer, size_t encoded_buffer
     structures and then runs an engine tick parsing the complete
     file buffer (it's completely available) */
     _start_bencoding_engine(&bencoding_engine);
-    _run_bencoding_engine(bencoding_engine, encoded_buffer, encoded_buffer_length);
+    return_value = _run_bencoding_engine(bencoding_engine, encoded_buffer, encoded_buffer_length);
 
     /* retieves the handler associated with the engine and then
-    uses it to retrieve the top type of the parsed structure */
+    verifies that there's a complete value, not a part of it */
     bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
+    if(bencoding_engine->state != BENCODING_ENGINE_NORMAL) { return_value = RUNTIME_EXCEPTION_ERROR_CODE; }
+    if(bencoding_handler->top == NULL) { return_value = RUNTIME_EXCEPTION_ERROR_CODE; }
+    if(bencoding_handler->sequence != NULL) { return_value = RUNTIME_EXCEPTION_ERROR_CODE; }
+
+    /* in case there was an error releases everything that has been
+    parsed, the sequences that are not finished are not yet contained
+    in the ones above them */
+    if(IS_ERROR_CODE(return_value)) {
+        if(bencoding_handler->sequence == NULL && bencoding_handler->top != NULL) {
+            free_type(bencoding_handler->top);
+        }
+        while(bencoding_handler->sequence_stack->size > 0) {
+            pop_top_value_linked_list(bencoding_handler->key_stack, (void **) &key, 1);
+            pop_top_value_linked_list(bencoding_handler->sequence_stack, (void **) &sequence, 1);
+            if(key != NULL) { FREE(key); }
+            free_type(sequence);
+        }
+        bencoding_handler->top = NULL;
+    }
+
+    /* uses the handler to retrieve the top type of the parsed
+    structure, it's not defined in case of error */
     *type_pointer = bencoding_handler->top;
 
     /* stops the bencoding engine releasing all of its internal
     structures, the top type is still defined */
     _stop_bencoding_engine(bencoding_engine);
 
+    if(IS_ERROR_CODE(return_value)) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Problem decoding bencoding buffer"
+        );
+    }
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
@@ -144,11 +177,11 @@ ERROR_CODE encode_bencoding_file(char *file_path, struct type_t *type) {
 
     /* runs the encoding process over the provided type structure
     and then uses the resulting buffer to write it to the file */
+    ERROR_CODE return_value;
     encode_bencoding(type, &encoded_buffer, &encoded_buffer_length);
-    write_file(file_path, encoded_buffer, encoded_buffer_length);
-
-    /* raises no error */
-    RAISE_NO_ERROR;
+    return_value = write_file(file_path, encoded_buffer, encoded_buffer_length);
+    FREE(encoded_buffer);
+    return return_value;
 }
 
 ERROR_CODE decode_bencoding_file(char *file_path, struct type_t **type_pointer) {
@@ -157,8 +190,6 @@ ERROR_CODE decode_bencoding_file(char *file_path, struct type_t **type_pointer)
     ERROR_CODE return_value;
     size_t file_size;
     unsigned char *file_buffer;
-    struct bencoding_engine_t *bencoding_engine;
-    struct bencoding_handler_t *bencoding_handler;
 
     /* reads the file contained in the provided file path
     and then tests the error code for error, in case there is an
@@ -172,27 +203,14 @@ ERROR_CODE decode_bencoding_file(char *file_path, struct type_t **type_pointer)
         );
     }
 
-    /* starts the bencoding engine, starting all of its internal
-    structures and then runs an engine tick parsing the complete
-    file buffer (it's completely available) */
-    _start_bencoding_engine(&bencoding_engine);
-    _run_bencoding_engine(bencoding_engine, file_buffer, file_size);
-
-    /* retieves the handler associated with the engine and then
-    uses it to retrieve the top type of the parsed structure */
-    bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
-    *type_pointer = bencoding_handler->top;
-
-    /* stops the bencoding engine releasing all of its internal
-    structures, the top type is still defined */
-    _stop_bencoding_engine(bencoding_engine);
+    /* decodes the complete contents of the file, they are all
+    available in the buffer */
+    return_value = decode_bencoding(file_buffer, file_size, type_pointer);
 
     /* releases the buffer used durring the parsing of
     the configuration file */
     FREE(file_buffer);
-
-    /* raises no error */
-    RAISE_NO_ERROR;
+    return return_value;
 }
 
 ERROR_CODE _encode_type(struct type_t *type, struct string_buffer_t *string_buffer) {
@@ -397,6 +415,11 @@ ERROR_CODE _run_bencoding_engine(struct bencoding_engine_t *bencoding_engine, un
                         break;
 
                     default:
+                        /* only the size of a string may start here */
+                        if(character < '0' || character > '9') {
+                            RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem parsing value");
+                        }
+
                         state = BENCODING_ENGINE_STRING_SIZE;
                         string_size = character - '0';
 
@@ -431,7 +454,21 @@ ERROR_CODE _run_bencoding_engine(struct bencoding_engine_t *bencoding_engine, un
 
                     BENCODING_MARK_N(string_end, -1);
                     BENCODING_CALLBACK(string_start);
+
+                    /* an empty string has no more bytes to be read,
+                    and so it ends immediately */
+                    if(string_size == 0) {
+                        state = BENCODING_ENGINE_NORMAL;
+
+                        BENCODING_CALLBACK_DATA_N(string_end, -1);
+                    }
                 } else {
+                    /* the size is a decimal number, the string must be
+                    contained in the buffer */
+                    if(character < '0' || character > '9' || string_size > size) {
+                        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem parsing string size");
+                    }
+
                     string_size *= 10;
                     string_size += character - '0';
                 }
@@ -453,75 +490,106 @@ ERROR_CODE _run_bencoding_engine(struct bencoding_engine_t *bencoding_engine, un
     RAISE_NO_ERROR;
 }
 
+ERROR_CODE _set_bencoding_handler(struct bencoding_handler_t *bencoding_handler, unsigned char *key, struct type_t *type) {
+    /* allocates space for the value previously associated
+    with the key in case there's one */
+    struct type_t *previous = NULL;
+    struct type_t *sequence = bencoding_handler->sequence;
+
+    /* in case there is no sequence the value is the top type
+    (base type), there may be only one */
+    if(sequence == NULL) {
+        if(bencoding_handler->top != NULL) {
+            free_type(type);
+            RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "More than one top value");
+        }
+        bencoding_handler->top = type;
+        RAISE_NO_ERROR;
+    }
+
+    /* switches over the type of current sequence to
+    execute the proper operations */
+    switch(sequence->type) {
+        case LIST_TYPE:
+            /* adds the current type to the list sequence */
+            append_value_linked_list(sequence->value.value_list, (void *) type);
+
+            /* breaks the switch */
+            break;
+
+        case MAP_TYPE:
+        case SORT_MAP_TYPE:
+            /* a value in a map must follow its key */
+            if(key == NULL || bencoding_handler->next_key == 1) {
+                free_type(type);
+                RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Map value without a key");
+            }
+
+            /* sets the value in the map for the current key, releasing the
+            one it replaces and sets the next key flag so that the next
+            string is saved as a key */
+            if(sequence->type == MAP_TYPE) {
+                get_value_string_hash_map(sequence->value.value_map, key, (void **) &previous);
+                set_value_string_hash_map(sequence->value.value_map, key, (void *) type);
+            } else {
+                get_value_string_sort_map(sequence->value.value_sort_map, key, (void **) &previous);
+                set_value_string_sort_map(sequence->value.value_sort_map, key, (void *) type);
+            }
+            if(previous != NULL) { free_type(previous); }
+            bencoding_handler->next_key = 1;
+
+            /* breaks the switch */
+            break;
+
+        default:
+            /* breaks the switch */
+            break;
+    }
+
+    /* raises no error */
+    RAISE_NO_ERROR;
+}
+
 ERROR_CODE _bencoding_integer_end_callback(struct bencoding_engine_t *bencoding_engine, const unsigned char *pointer, size_t size) {
     /* allocates space for the integer value and for
     the type that will encapsulate it */
+    size_t index;
     int _integer;
+    char *integer;
     struct type_t *type;
 
     /* retrieves the bencoding handler from the template engine context
     then uses it to store the (current) value */
     struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
 
+    /* verifies that there are only digits in the integer, with the
+    possible exception of the signal */
+    index = size > 0 && pointer[0] == '-' ? 1 : 0;
+    if(index == size) { RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Empty integer"); }
+    for(; index < size; index++) {
+        if(pointer[index] < '0' || pointer[index] > '9') {
+            RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Invalid integer");
+        }
+    }
+
     /* allocates space for the integer string value and then copies
     the data buffer into it and terminates the null string */
-    char *integer = MALLOC(size + 1);
+    integer = MALLOC(size + 1);
     memcpy(integer, pointer, size);
     integer[size] = '\0';
 
-    /* in case the sequence type is defined the integer must
-    be a value and must be associated with the sequence */
-    if(bencoding_handler->sequence != NULL) {
-        /* converts the integer string into an integer value, then creates
-        the type structure for the integer and sets it as an integer value */
-        _integer = atoi(integer);
-        create_type(&type, INTEGER_TYPE);
-        *type = integer_type(_integer);
-
-        /* switches over the type of current sequence to
-        execute the proper operations */
-        switch(bencoding_handler->sequence->type) {
-            case LIST_TYPE:
-                /* adds the current type to the list sequence */
-                append_value_linked_list(bencoding_handler->sequence->value.value_list, (void *) type);
-
-                /* breaks the switch */
-                break;
-
-            case MAP_TYPE:
-                /* sets the value in the map for the current key and sets the next key
-                flag so that the next string is saved as a key */
-                set_value_string_hash_map(bencoding_handler->sequence->value.value_map, bencoding_handler->key, (void *) type);
-                bencoding_handler->next_key = 1;
-
-                /* breaks the switch */
-                break;
-
-            case SORT_MAP_TYPE:
-                /* sets the value in the map for the current key and sets the next key
-                flag so that the next string is saved as a key */
-                set_value_string_sort_map(bencoding_handler->sequence->value.value_sort_map, bencoding_handler->key, (void *) type);
-                bencoding_handler->next_key = 1;
-
-                /* breaks the switch */
-                break;
-
-            default:
-                /* breaks the switch */
-                break;
-        }
-    }
-
-    /* in case there is no top type defined for the handler sets the
-    current type as the top type (base type) */
-    if(bencoding_handler->top == NULL) { bencoding_handler->top = type; }
+    /* converts the integer string into an integer value, then creates
+    the type structure for the integer and sets it as an integer value */
+    _integer = atoi(integer);
+    create_type(&type, INTEGER_TYPE);
+    *type = integer_type(_integer);
 
     /* releases the memory associated with the intger string value
     in order to avoid memory leaks */
     FREE(integer);
 
-    /* raises no error */
-    RAISE_NO_ERROR;
+    /* associates the integer with the current sequence */
+    return _set_bencoding_handler(bencoding_handler, bencoding_handler->key, type);
 }
 
 ERROR_CODE _bencoding_string_end_callback(struct bencoding_engine_t *bencoding_engine, const unsigned char *pointer, size_t size) {
@@ -541,73 +609,21 @@ ERROR_CODE _bencoding_string_end_callback(struct bencoding_engine_t *bencoding_e
 
     /* in case the next key flag is active must set the current key as
     the just retrieved string */
-    if(bencoding_handler->next_key == 1) {
+    if(bencoding_handler->sequence != NULL && bencoding_handler->next_key == 1) {
         /* in case there's a key pending to be release must release it
         to avoid memory leaks, then sets the current string as the key
         and unsets the next key flag to save the value */
         if(bencoding_handler->key != NULL) { FREE(bencoding_handler->key); }
         bencoding_handler->key = (unsigned char *) string;
         bencoding_handler->next_key = 0;
+        RAISE_NO_ERROR;
     }
-    /* otherwise in case the sequence type is defined the string must
-    be a value and must be associated with the sequence */
-    else if(bencoding_handler->sequence != NULL) {
-        /* creates a new type structure for the string
-        and sets it with the correct string value */
-        create_type(&type, STRING_TYPE);
-        *type = buffer_type(string, size);
-
-        /* switches over the type of current sequence to
-        execute the proper operations */
-        switch(bencoding_handler->sequence->type) {
-            case LIST_TYPE:
-                /* adds the current type to the list sequence */
-                append_value_linked_list(
-                    bencoding_handler->sequence->value.value_list,
-                    (void *) type
-                );
-
-                /* breaks the switch */
-                break;
-
-            case MAP_TYPE:
-                /* sets the value in the map for the current key and sets the next key
-                flag so that the next string is saved as a key */
-                set_value_string_hash_map(
-                    bencoding_handler->sequence->value.value_map,
-                    bencoding_handler->key,
-                    (void *) type
-                );
-                bencoding_handler->next_key = 1;
-
-                /* breaks the switch */
-                break;
-
-            case SORT_MAP_TYPE:
-                /* sets the value in the map for the current key and sets the next key
-                flag so that the next string is saved as a key */
-                set_value_string_sort_map(
-                    bencoding_handler->sequence->value.value_sort_map,
-                    bencoding_handler->key,
-                    (void *) type
-                );
-                bencoding_handler->next_key = 1;
-
-                /* breaks the switch */
-                break;
 
-            default:
-                /* breaks the switch */
-                break;
-        }
-    }
-
-    /* in case there is no top type defined for the handler sets the
-    current type as the top type (base type) */
-    if(bencoding_handler->top == NULL) { bencoding_handler->top = type; }
-
-    /* raises no error */
-    RAISE_NO_ERROR;
+    /* otherwise creates a new type structure for the string, sets it
+    with the correct string value and associates it with the sequence */
+    create_type(&type, STRING_TYPE);
+    *type = buffer_type(string, size);
+    return _set_bencoding_handler(bencoding_handler, bencoding_handler->key, type);
 }
 
 ERROR_CODE _bencoding_list_start_callback(struct bencoding_engine_t *bencoding_engine) {
@@ -620,6 +636,15 @@ ERROR_CODE _bencoding_list_start_callback(struct bencoding_engine_t *bencoding_e
     then uses it to store the (current) value */
     struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
 
+    /* there may be only one top value, and a value in a map must
+    follow its key */
+    if(bencoding_handler->sequence == NULL && bencoding_handler->top != NULL) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "More than one top value");
+    }
+    if(bencoding_handler->sequence != NULL && bencoding_handler->next_key == 1) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Map value without a key");
+    }
+
     /* creates a new linked list for the new structure (sequence) context
     and then creates the respective type for the list */
     create_linked_list(&list);
@@ -657,6 +682,15 @@ ERROR_CODE _bencoding_dictionary_start_callback(struct bencoding_engine_t *benco
     then uses it to store the (current) value */
     struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
 
+    /* there may be only one top value, and a value in a map must
+    follow its key */
+    if(bencoding_handler->sequence == NULL && bencoding_handler->top != NULL) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "More than one top value");
+    }
+    if(bencoding_handler->sequence != NULL && bencoding_handler->next_key == 1) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Map value without a key");
+    }
+
     /* switchs over the "target" map type to be used to store conceptual
     maps in the bencoding structure */
     switch(bencoding_engine->map_type) {
@@ -667,6 +701,9 @@ ERROR_CODE _bencoding_dictionary_start_callback(struct bencoding_engine_t *benco
             create_type(&type, MAP_TYPE);
             *type = map_type(hash_map);
 
+            /* breaks the switch */
+            break;
+
         case SORT_MAP_TYPE:
             /* creates a new sort map for the new structure (sequence) context
             and then creates the respective type for the map */
@@ -674,6 +711,9 @@ ERROR_CODE _bencoding_dictionary_start_callback(struct bencoding_engine_t *benco
             create_type(&type, SORT_MAP_TYPE);
             *type = sort_map_type(sort_map);
 
+            /* breaks the switch */
+            break;
+
         default:
             /* creates a new sort map for the new structure (sequence) context
             and then creates the respective type for the map */
@@ -713,6 +753,15 @@ ERROR_CODE _bencoding_sequence_end_callback(struct bencoding_engine_t *bencoding
     then uses it to store the (current) value */
     struct bencoding_handler_t *bencoding_handler = (struct bencoding_handler_t *) bencoding_engine->context;
 
+    /* there must be a sequence to be ended, and in case it's a map
+    the last key must have a value */
+    if(bencoding_handler->sequence == NULL) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "No sequence to be ended");
+    }
+    if(bencoding_handler->sequence->type != LIST_TYPE && bencoding_handler->next_key == 0) {
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Map key without a value");
+    }
+
     /* pops the current key in the stack and the current sequence in the
     stack (these are the current values), then peeks the current sequence
     in the stack (in case it exists) it should represent the sequence to
@@ -736,52 +785,9 @@ ERROR_CODE _bencoding_sequence_end_callback(struct bencoding_engine_t *bencoding
     typical for the top level of parsing */
     if(bencoding_handler->sequence == NULL) { RAISE_NO_ERROR; }
 
-    /* swithces over the sequence type to take the appropriate action of
-    setting the lower (previous) context in the upper (current) context */
-    switch(bencoding_handler->sequence->type) {
-        case LIST_TYPE:
-            /* adds the lower value to the upper list appending it to the
-            back of the lis */
-            append_value_linked_list(bencoding_handler->sequence->value.value_list, (void *) sequence);
-
-            /* unsets the next key flag to avoid any unexpected string parsing
-            behavior (hash map only) */
-            bencoding_handler->next_key = 0;
-
-            /* breaks the switch */
-            break;
-
-        case MAP_TYPE:
-            /* sets the lower value in the upper map for the current key
-            this is the lower upper layer association */
-            set_value_string_hash_map(bencoding_handler->sequence->value.value_map, key, (void *) sequence);
-
-            /* sets the retrieved key as the current key and
-            sets the next key flag to force the retrieval of key */
-            bencoding_handler->key = key;
-            bencoding_handler->next_key = 1;
-
-            /* breaks the switch */
-            break;
-
-        case SORT_MAP_TYPE:
-            /* sets the lower value in the upper map for the current key
-            this is the lower upper layer association */
-            set_value_string_sort_map(bencoding_handler->sequence->value.value_sort_map, key, (void *) sequence);
-
-            /* sets the retrieved key as the current key and
-            sets the next key flag to force the retrieval of key */
-            bencoding_handler->key = key;
-            bencoding_handler->next_key = 1;
-
-            /* breaks the switch */
-            break;
-
-        default:
-            /* breaks the switch */
-            break;
-    }
-
-    /* raises no error */
-    RAISE_NO_ERROR;
+    /* sets the lower (previous) context in the upper (current) context, the
+    retrieved key is the current one again */
+    bencoding_handler->key = key;
+    bencoding_handler->next_key = 0;
+    return _set_bencoding_handler(bencoding_handler, key, sequence);
 }
diff --git a/src/viriatum_commons/encoding/bencoding.h b/src/viriatum_commons/encoding/bencoding.h
index 2dbfc90..6c109bb 100644
--- a/src/viriatum_commons/encoding/bencoding.h
+++ b/src/viriatum_commons/encoding/bencoding.h
@@ -114,6 +114,7 @@ VIRIATUM_EXPORT_PREFIX ERROR_CODE decode_bencoding_file(char *file_path, struct
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _encode_type(struct type_t *type, struct string_buffer_t *string_buffer);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _start_bencoding_engine(struct bencoding_engine_t **bencoding_engine_pointer);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _stop_bencoding_engine(struct bencoding_engine_t *bencoding_engine);
+VIRIATUM_EXPORT_PREFIX ERROR_CODE _set_bencoding_handler(struct bencoding_handler_t *bencoding_handler, unsigned char *key, struct type_t *type);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _run_bencoding_engine(struct bencoding_engine_t *bencoding_engine, unsigned char *buffer, size_t size);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _bencoding_integer_end_callback(struct bencoding_engine_t *bencoding_engine, const unsigned char *pointer, size_t size);
 VIRIATUM_EXPORT_PREFIX ERROR_CODE _bencoding_string_end_callback(struct bencoding_engine_t *bencoding_engine, const unsigned char *pointer, size_t size);
-- 
2.43.0


From 7b3f38d5a368f9fdbcbf1fc761b5bbd71083b027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 52/77] fix: an ip6 address of any length must not write past
 its buffer

---
 src/viriatum/system/service.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index d4b12bb..7cbea07 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -680,6 +680,16 @@ ERROR_CODE start_service(struct service_t *service) {
 #endif
 
 #ifdef VIRIATUM_PLATFORM_UNIX
+        /* an address that does not fit the temporary buffer is not
+        a valid one (and may not be copied) */
+        if(strlen((char *) service_options->address6) >= sizeof(address6)) {
+            V_ERROR("Problem getting ip6 address information: too long\n");
+            RAISE_ERROR_M(
+                RUNTIME_EXCEPTION_ERROR_CODE,
+                (unsigned char *) "Problem getting ip6 address information"
+            );
+        }
+
         /* copies the ip6 address to a temporary buffer and then
         uses the buffer to trim the string remogin the first and
         last chracters from it (ip6 normal representation) */
-- 
2.43.0


From 97577f3887745454a8c62bcfd6f58e1d6a9dff99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:32 +0000
Subject: [PATCH 53/77] fix: a service that fails to start closes its ip6
 socket too

---
 src/viriatum/system/service.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 7cbea07..a2568be 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -83,6 +83,9 @@ void delete_service(struct service_t *service) {
     if(service->service_socket_handle) {
         SOCKET_CLOSE(service->service_socket_handle);
     }
+    if(service->service_socket6_handle) {
+        SOCKET_CLOSE(service->service_socket6_handle);
+    }
 
     /* in case the service configuration is defined and set
     must close the it using the safe approach (gracefully) */
-- 
2.43.0


From f24295578b80827ce2b0e6e729f19ef954f6fb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 54/77] fix: the thread pool kept the queue node of every task
 it ran

---
 src/viriatum_commons/thread/thread_pool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/thread/thread_pool.c b/src/viriatum_commons/thread/thread_pool.c
index 904d83f..3f96eca 100644
--- a/src/viriatum_commons/thread/thread_pool.c
+++ b/src/viriatum_commons/thread/thread_pool.c
@@ -146,7 +146,7 @@ THREAD_RETURN pool_runner_thread(THREAD_ARGUMENTS parameters) {
         }
 
         /* retrieves the work thread task */
-        pop_value_linked_list(thread_pool->task_queue, (void **) &work_thread_task, 0);
+        pop_value_linked_list(thread_pool->task_queue, (void **) &work_thread_task, 1);
 
         /* unlock the task condition lock */
         CONDITION_UNLOCK(thread_pool->task_condition, thread_pool->task_condition_lock);
-- 
2.43.0


From 7bd1e26bf70f2cc4a292f5478b4b68be0a9ac37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 55/77] fix: a thread that could not be created was made part
 of its pool

---
 src/viriatum_commons/thread/thread_pool.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/viriatum_commons/thread/thread_pool.c b/src/viriatum_commons/thread/thread_pool.c
index 3f96eca..71419fa 100644
--- a/src/viriatum_commons/thread/thread_pool.c
+++ b/src/viriatum_commons/thread/thread_pool.c
@@ -102,6 +102,14 @@ void create_thread_pool_element(struct thread_pool_t *thread_pool) {
     /* creates the engine runnner thread */
     THREAD_HANDLE thread_handle = THREAD_CREATE_BASE(thread_id, pool_runner_thread, (THREAD_ARGUMENTS) thread_pool);
 
+#ifdef VIRIATUM_PLATFORM_UNIX
+    /* a thread that was not created is not part of the pool */
+    if(thread_handle != 0) {
+        FREE(thread_pool_element);
+        return;
+    }
+#endif
+
     /* sets the thread pool element attributes */
     thread_pool_element->thread_handle = thread_handle;
     thread_pool_element->thread_id = thread_id;
-- 
2.43.0


From 344cd732e5e1e21400d78728cb36eaa5f54251fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 56/77] fix: deleting a thread pool released what its workers
 were using

---
 src/viriatum_commons/thread/thread_pool.c | 37 +++++++++++++++++++++--
 src/viriatum_commons/thread/thread_pool.h |  1 +
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/viriatum_commons/thread/thread_pool.c b/src/viriatum_commons/thread/thread_pool.c
index 71419fa..9685c4c 100644
--- a/src/viriatum_commons/thread/thread_pool.c
+++ b/src/viriatum_commons/thread/thread_pool.c
@@ -53,6 +53,9 @@ void create_thread_pool(struct thread_pool_t **thread_pool_pointer, size_t numbe
     /* initializes the thread pool current number of threads */
     thread_pool->current_number_threads = 0;
 
+    /* the pool runs until it's deleted */
+    thread_pool->stopped = FALSE;
+
     /* creates the task condition */
     CONDITION_CREATE(thread_pool->task_condition);
 
@@ -76,8 +79,32 @@ void create_thread_pool(struct thread_pool_t **thread_pool_pointer, size_t numbe
 }
 
 void delete_thread_pool(struct thread_pool_t *thread_pool) {
-    /* closes the task condition */
+    /* allocates space for the index and for the worker
+    thread to be ended */
+    size_t index;
+    struct thread_pool_element_t *thread_pool_element;
+
+    /* marks the pool as stopped and wakes every worker thread, they
+    end as soon as there are no more tasks to be run */
+    CONDITION_LOCK(thread_pool->task_condition, thread_pool->task_condition_lock);
+    thread_pool->stopped = TRUE;
+    for(index = 0; index < thread_pool->current_number_threads; index++) {
+        CONDITION_SIGNAL(thread_pool->task_condition);
+    }
+    CONDITION_UNLOCK(thread_pool->task_condition, thread_pool->task_condition_lock);
+
+    /* waits for the end of the worker threads, they use the
+    structures released bellow */
+    while(thread_pool->worker_threads_list->size > 0) {
+        pop_value_linked_list(thread_pool->worker_threads_list, (void **) &thread_pool_element, 1);
+        THREAD_JOIN_BASE(thread_pool_element->thread_handle, thread_pool_element->thread_id);
+        THREAD_CLOSE(thread_pool_element->thread_handle);
+        FREE(thread_pool_element);
+    }
+
+    /* closes the task condition and the associated lock */
     CONDITION_CLOSE(thread_pool->task_condition);
+    CRITICAL_SECTION_CLOSE(thread_pool->task_condition_lock);
 
     /* delete the worker threads list */
     delete_linked_list(thread_pool->worker_threads_list);
@@ -148,11 +175,17 @@ THREAD_RETURN pool_runner_thread(THREAD_ARGUMENTS parameters) {
         CONDITION_LOCK(thread_pool->task_condition, thread_pool->task_condition_lock);
 
         /* iterates while the task queue is empty */
-        while(thread_pool->task_queue->size == 0) {
+        while(thread_pool->task_queue->size == 0 && !thread_pool->stopped) {
             /* waits for the task condition */
             CONDITION_WAIT(thread_pool->task_condition, thread_pool->task_condition_lock);
         }
 
+        /* in case there are no tasks left the pool was stopped */
+        if(thread_pool->task_queue->size == 0) {
+            CONDITION_UNLOCK(thread_pool->task_condition, thread_pool->task_condition_lock);
+            break;
+        }
+
         /* retrieves the work thread task */
         pop_value_linked_list(thread_pool->task_queue, (void **) &work_thread_task, 1);
 
diff --git a/src/viriatum_commons/thread/thread_pool.h b/src/viriatum_commons/thread/thread_pool.h
index 157d6b1..97fe348 100644
--- a/src/viriatum_commons/thread/thread_pool.h
+++ b/src/viriatum_commons/thread/thread_pool.h
@@ -53,6 +53,7 @@ typedef struct thread_pool_t {
     CRITICAL_SECTION_HANDLE task_condition_lock;
     struct linked_list_t *worker_threads_list;
     struct linked_list_t *task_queue;
+    char stopped;
 } thread_pool;
 
 VIRIATUM_EXPORT_PREFIX void create_thread_pool(struct thread_pool_t **thread_pool_pointer, size_t number_threads, size_t scheduling_algorithm, size_t maximum_number_threads);
-- 
2.43.0


From 5cf4b61e006f7e4c608c658427b5777b4773965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:03 +0000
Subject: [PATCH 57/77] fix: the length of half a gigabyte given at once to
 sha1 was counted twice

---
 src/viriatum_commons/checksum/sha1.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/viriatum_commons/checksum/sha1.c b/src/viriatum_commons/checksum/sha1.c
index 04e95ba..46b9470 100644
--- a/src/viriatum_commons/checksum/sha1.c
+++ b/src/viriatum_commons/checksum/sha1.c
@@ -55,7 +55,7 @@ void update_sha1(struct sha1_context_t *context, const unsigned char *data, cons
     size_t i, j;
 
     j = (context->count[0] >> 3) & 63;
-    if((context->count[0] += size << 3) < (size << 3)) { context->count[1]++; }
+    if((context->count[0] += (unsigned int) (size << 3)) < (unsigned int) (size << 3)) { context->count[1]++; }
     context->count[1] += (size >> 29);
     if((j + size) > 63) {
         memcpy(&context->buffer[j], data, (i = 64 - j));
-- 
2.43.0


From c67472cbcf9d78174423eb1d918a0244ccdb13ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:28 +0000
Subject: [PATCH 58/77] fix: a query or a fragment right after the host of an
 url was taken as part of the host

---
 src/viriatum_commons/formats/url.c | 48 ++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/viriatum_commons/formats/url.c b/src/viriatum_commons/formats/url.c
index f12fbb7..db2b616 100644
--- a/src/viriatum_commons/formats/url.c
+++ b/src/viriatum_commons/formats/url.c
@@ -117,6 +117,22 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
                         mark = pointer;
                         break;
 
+                    case '?':
+                        length = pointer - mark;
+                        url_s->host_c.buffer = mark;
+                        url_s->host_c.length = length;
+                        state = QUERY_STATE;
+                        mark = pointer + 1;
+                        break;
+
+                    case '#':
+                        length = pointer - mark;
+                        url_s->host_c.buffer = mark;
+                        url_s->host_c.length = length;
+                        state = FRAGMENT_STATE;
+                        mark = pointer + 1;
+                        break;
+
                     case '@':
                         length = pointer - mark;
                         url_s->auth.buffer = mark;
@@ -138,6 +154,22 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
                         mark = pointer;
                         break;
 
+                    case '?':
+                        length = pointer - mark;
+                        url_s->host.buffer = mark;
+                        url_s->host.length = length;
+                        state = QUERY_STATE;
+                        mark = pointer + 1;
+                        break;
+
+                    case '#':
+                        length = pointer - mark;
+                        url_s->host.buffer = mark;
+                        url_s->host.length = length;
+                        state = FRAGMENT_STATE;
+                        mark = pointer + 1;
+                        break;
+
                     case ':':
                         length = pointer - mark;
                         url_s->host.buffer = mark;
@@ -158,6 +190,22 @@ ERROR_CODE parse_url(char *url, size_t url_size, struct url_t *url_s) {
                         state = PATH_STATE;
                         mark = pointer;
                         break;
+
+                    case '?':
+                        length = pointer - mark;
+                        url_s->port_s.buffer = mark;
+                        url_s->port_s.length = length;
+                        state = QUERY_STATE;
+                        mark = pointer + 1;
+                        break;
+
+                    case '#':
+                        length = pointer - mark;
+                        url_s->port_s.buffer = mark;
+                        url_s->port_s.length = length;
+                        state = FRAGMENT_STATE;
+                        mark = pointer + 1;
+                        break;
                 }
 
                 break;
-- 
2.43.0


From 5f44a58d42b274a0199c84fe5f9cc05ba0558d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:26 +0000
Subject: [PATCH 59/77] fix: a secure connection was never accepted when the
 other side was slow to take the handshake

---
 src/viriatum/polling/polling_epoll.c  | 22 ++++++++++++++++++++++
 src/viriatum/polling/polling_select.c | 22 ++++++++++++++++++++++
 src/viriatum/stream/stream_io.c       | 19 +++++++++++++++++++
 3 files changed, 63 insertions(+)

diff --git a/src/viriatum/polling/polling_epoll.c b/src/viriatum/polling/polling_epoll.c
index 8481ab7..735fca1 100644
--- a/src/viriatum/polling/polling_epoll.c
+++ b/src/viriatum/polling/polling_epoll.c
@@ -695,6 +695,28 @@ ERROR_CODE _call_polling_epoll(
         performed, fast operations */
         current_connection->write_valid = TRUE;
 
+        /* in case the current connection is in the handshake section the
+        handshake may be waiting for the connection to be writable and so it
+        must be resumed, if that completes it the data that has arrived in
+        the meantime (already notified) must be read */
+        if(current_connection->status == STATUS_HANDSHAKE &&\
+            current_connection->on_handshake != NULL) {
+            /* prints a series of debug messages about the handshake
+            operation in it and then calls the handshake handler */
+            V_DEBUG("Calling on handshake handler\n");
+            CALL_V(current_connection->on_handshake, current_connection);
+            V_DEBUG("Finished calling on handshake handler\n");
+
+            /* in case the handshake has just been completed and the read
+            handler is correctly set calls it for the pending data */
+            if(current_connection->status == STATUS_OPEN &&\
+                current_connection->on_read != NULL) {
+                V_DEBUG("Calling on read handler\n");
+                CALL_V(current_connection->on_read, current_connection);
+                V_DEBUG("Finished calling on read handler\n");
+            }
+        }
+
         /* in case the current connection is open */
         if(current_connection->status == STATUS_OPEN &&\
             current_connection->on_write != NULL) {
diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 7d4f1d5..f9d1845 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -642,6 +642,28 @@ ERROR_CODE _call_polling_select(
         performed, fast operations */
         current_connection->write_valid = TRUE;
 
+        /* in case the current connection is in the handshake section the
+        handshake may be waiting for the connection to be writable and so it
+        must be resumed, if that completes it the data that has arrived in
+        the meantime (already notified) must be read */
+        if(current_connection->status == STATUS_HANDSHAKE &&\
+            current_connection->on_handshake != NULL) {
+            /* prints a series of debug messages about the handshake
+            operation in it and then calls the handshake handler */
+            V_DEBUG("Calling on handshake handler\n");
+            CALL_V(current_connection->on_handshake, current_connection);
+            V_DEBUG("Finished calling on handshake handler\n");
+
+            /* in case the handshake has just been completed and the read
+            handler is correctly set calls it for the pending data */
+            if(current_connection->status == STATUS_OPEN &&\
+                current_connection->on_read != NULL) {
+                V_DEBUG("Calling on read handler\n");
+                CALL_V(current_connection->on_read, current_connection);
+                V_DEBUG("Finished calling on read handler\n");
+            }
+        }
+
         /* in case the current connection is open */
         if(current_connection->status == STATUS_OPEN &&\
             current_connection->on_write != NULL) {
diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 99900c4..1b7c265 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -227,6 +227,12 @@ ERROR_CODE accept_handler_stream_io(struct connection_t *connection) {
                             status so that the complete handshake may be resumed */
                             client_connection->status = STATUS_HANDSHAKE;
 
+                            /* in case the handshake is waiting for the connection to
+                            be writable must be notified about that */
+                            if(socket_result == SSL_ERROR_WANT_WRITE) {
+                                client_connection->register_write(client_connection);
+                            }
+
                             /* breaks the switch must try to accept
                             the connection again in a different loop */
                             break;
@@ -661,6 +667,12 @@ ERROR_CODE handshake_handler_stream_io(struct connection_t *connection) {
     sockets may block on this */
     result = SSL_accept(connection->ssl_handle);
 
+    /* in case the connection was registered for write as part of
+    a previous try of the handshake removes that registration */
+    if(connection->write_registered == TRUE) {
+        connection->unregister_write(connection);
+    }
+
     /* in case the result of the accept operation in the ssl handle is not
     the expected (error) must handle it gracefully (normal) */
     if(result == 1) {
@@ -704,6 +716,13 @@ ERROR_CODE handshake_handler_stream_io(struct connection_t *connection) {
                 of handshaking for the current connection*/
                 V_DEBUG_F("Skipping SSL handshake (%s)\n", ssl_error_codes[result]);
 
+                /* in case the handshake is waiting for the connection to
+                be writable must be notified about that */
+                if(result == SSL_ERROR_WANT_WRITE) {
+                    connection->invalidate_write(connection);
+                    connection->register_write(connection);
+                }
+
                 /* breaks the switch must try to accept
                 the connection again in a different loop */
                 break;
-- 
2.43.0


From aa6d21b1ff8ea61d2b03f50c9b84d946e9c9d946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:26 +0000
Subject: [PATCH 60/77] fix: a secure connection was closed when the answer to
 a change of keys could not be sent at once

---
 src/viriatum/stream/stream_io.c | 31 ++++++++++++++++++++++++++++++-
 src/viriatum/system/service.c   |  1 +
 src/viriatum/system/service.h   |  8 ++++++++
 3 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 1b7c265..20014b9 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -375,6 +375,15 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
                     V_DEBUG("Read structures not ready: SSL_ERROR_WANT_READ\n");
                     error = 2;
                     break;
+
+                case SSL_ERROR_WANT_WRITE:
+                    /* prints a debug message, sets the error flag (non fatal)
+                    and then breaks the current switch statement, the read must
+                    be resumed once the connection is able to be written */
+                    V_DEBUG("Read structures not ready: SSL_ERROR_WANT_WRITE\n");
+                    connection->read_blocked = TRUE;
+                    error = 2;
+                    break;
 #endif
 
                 default:
@@ -458,6 +467,16 @@ ERROR_CODE read_handler_stream_io(struct connection_t *connection) {
             the read operation (useful for epoll) */
             CALL_V(connection->invalidate_read, connection);
 
+            /* in case the read is waiting for the connection to be
+            writable must be notified about that */
+            if(connection->read_blocked == TRUE &&\
+                connection->status == STATUS_OPEN) {
+                connection->invalidate_write(connection);
+                if(connection->write_registered == FALSE) {
+                    connection->register_write(connection);
+                }
+            }
+
             /* breaks the switch */
             break;
 
@@ -481,6 +500,14 @@ ERROR_CODE write_handler_stream_io(struct connection_t *connection) {
     /* flag and value controlling the state of the write */
     ERROR_CODE error = 0;
 
+    /* in case there's a read waiting for the connection to be
+    writable resumes it (the connection may be closed by it) */
+    if(connection->read_blocked == TRUE) {
+        connection->read_blocked = FALSE;
+        read_handler_stream_io(connection);
+        if(connection->status != STATUS_OPEN) { RAISE_NO_ERROR; }
+    }
+
     /* iterates continuously */
     while(TRUE) {
         /* prints a debug message */
@@ -610,7 +637,9 @@ ERROR_CODE write_handler_stream_io(struct connection_t *connection) {
         /* in case there's no error */
         case 0:
             /* unregisters the connection from write as the
-            connection write queue should be empty */
+            connection write queue should be empty, unless there's
+            a read waiting for the connection to be writable */
+            if(connection->read_blocked == TRUE) { break; }
             connection->unregister_write(connection);
 
             /* breaks the switch */
diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index a2568be..23c9280 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -1496,6 +1496,7 @@ ERROR_CODE create_connection(struct connection_t **connection_pointer, SOCKET_HA
     connection->write_registered = FALSE;
     connection->read_valid = FALSE;
     connection->write_valid = FALSE;
+    connection->read_blocked = FALSE;
     connection->is_outstanding = FALSE;
     connection->open_connection = NULL;
     connection->close_connection = NULL;
diff --git a/src/viriatum/system/service.h b/src/viriatum/system/service.h
index cb8d0b2..a846b0e 100644
--- a/src/viriatum/system/service.h
+++ b/src/viriatum/system/service.h
@@ -831,6 +831,14 @@ typedef struct connection_t {
      */
     unsigned char write_valid;
 
+    /**
+     * Boolean flag value that controls if the last read
+     * operation is waiting for the connection to be writable
+     * (secure connections), in that case the read is resumed
+     * as soon as the underlying socket is ready for writing.
+     */
+    unsigned char read_blocked;
+
     /**
      * Flag that controls if the current connection has
      * outstanding operations pending to be performed.
-- 
2.43.0


From 4e3cd1bc5a961070d961d07f6e31eada9d7bfc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:37 +0000
Subject: [PATCH 61/77] fix: an error of a secure connection closed the other
 secure connections

---
 src/viriatum/system/service.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/system/service.h b/src/viriatum/system/service.h
index a846b0e..772dcf6 100644
--- a/src/viriatum/system/service.h
+++ b/src/viriatum/system/service.h
@@ -42,10 +42,10 @@ struct http_handler_t;
 #ifdef VIRIATUM_SSL
 #define CONNECTION_SEND(connection, buffer, length, flags) connection->ssl_handle == NULL ? \
     SOCKET_SEND(connection->socket_handle, buffer, length, flags) :\
-    SSL_write(connection->ssl_handle, buffer, length)
+    (ERR_clear_error(), SSL_write(connection->ssl_handle, buffer, length))
 #define CONNECTION_RECEIVE(connection, buffer, length, flags) connection->ssl_handle == NULL ? \
     SOCKET_RECEIVE(connection->socket_handle, buffer, length, flags) :\
-    SSL_read(connection->ssl_handle, buffer, length)
+    (ERR_clear_error(), SSL_read(connection->ssl_handle, buffer, length))
 #define CONNECTION_GET_ERROR_CODE(connection, error_code) connection->ssl_handle == NULL ? \
     SOCKET_GET_ERROR_CODE(error_code) :\
     SSL_get_error(connection->ssl_handle, error_code)
-- 
2.43.0


From baa1288028b960f9e869ef3cc12ca9241e54cd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:29 +0000
Subject: [PATCH 62/77] fix: names of header fields were compared by their
 first letters and with regard to case

---
 src/viriatum/handlers/handler_file.c | 21 +++++++++++++++++----
 src/viriatum/handlers/handler_file.h |  1 +
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/viriatum/handlers/handler_file.c b/src/viriatum/handlers/handler_file.c
index 6d97580..02f0955 100644
--- a/src/viriatum/handlers/handler_file.c
+++ b/src/viriatum/handlers/handler_file.c
@@ -286,7 +286,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
     that was provided (used for faster parsing) */
     switch(data_size) {
         case 5:
-            if(data[0] == 'R' && data[1] == 'a' && data[2] == 'n' && data[3] == 'g') {
+            if(_is_header_handler_file(data, data_size, "Range")) {
                 /* updates the range status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->range_status = 1;
@@ -299,7 +299,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
             break;
 
         case 13:
-            if(data[0] == 'I' && data[1] == 'f' && data[2] == '-' && data[3] == 'N') {
+            if(_is_header_handler_file(data, data_size, "If-None-Match")) {
                 /* updates the etag status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->etag_status = 1;
@@ -307,7 +307,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
                 break;
             }
 
-            if(data[0] == 'C' && data[1] == 'a' && data[2] == 'c' && data[3] == 'h') {
+            if(_is_header_handler_file(data, data_size, "Cache-Control")) {
                 /* updates the cache control status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->cache_control_status = 1;
@@ -315,7 +315,7 @@ ERROR_CODE header_field_callback_handler_file(struct http_parser_t *http_parser,
                 break;
             }
 
-            if(data[0] == 'A' && data[1] == 'u' && data[2] == 't' && data[3] == 'h') {
+            if(_is_header_handler_file(data, data_size, "Authorization")) {
                 /* updates the authorization status value, it's the next
                 value to be parsed and put in context */
                 handler_file_context->authorization_status = 1;
@@ -1069,6 +1069,19 @@ ERROR_CODE _set_path_handler_file(struct handler_file_context_t *handler_file_co
     RAISE_NO_ERROR;
 }
 
+unsigned char _is_header_handler_file(const unsigned char *data, size_t data_size, const char *name) {
+    /* allocates space for the index to be used in the comparison,
+    the case of the letters is not relevant in a header name */
+    size_t index;
+    if(data_size != strlen(name)) { return FALSE; }
+    for(index = 0; index < data_size; index++) {
+        if(tolower(data[index]) != tolower((unsigned char) name[index])) { return FALSE; }
+    }
+
+    /* returns valid as all of the characters have been matched */
+    return TRUE;
+}
+
 unsigned char _is_contained_handler_file(const unsigned char *path) {
     /* allocates space for the current depth in the path
     and for the size of the current segment of it */
diff --git a/src/viriatum/handlers/handler_file.h b/src/viriatum/handlers/handler_file.h
index cfebd73..dffaf2a 100644
--- a/src/viriatum/handlers/handler_file.h
+++ b/src/viriatum/handlers/handler_file.h
@@ -274,6 +274,7 @@ ERROR_CODE location_callback_handler_file(struct http_parser_t *http_parser, siz
 ERROR_CODE virtual_url_callback_handler_file(struct http_parser_t *http_parser, const unsigned char *data, size_t data_size);
 ERROR_CODE _set_url_handler_file(struct handler_file_context_t *handler_file_context, const unsigned char *data, size_t data_size);
 ERROR_CODE _set_path_handler_file(struct handler_file_context_t *handler_file_context, const char *base_path, const unsigned char *path);
+unsigned char _is_header_handler_file(const unsigned char *data, size_t data_size, const char *name);
 unsigned char _is_contained_handler_file(const unsigned char *path);
 ERROR_CODE _set_http_parser_handler_file(struct http_parser_t *http_parser);
 ERROR_CODE _unset_http_parser_handler_file(struct http_parser_t *http_parser);
-- 
2.43.0


From 6d345f058b787bb1a13e33e19e2f04a76c5179c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:29 +0000
Subject: [PATCH 63/77] fix: a tab after the value of a header field made it
 another value

---
 src/viriatum/http/http_parser.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 61e5484..84b201a 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -1395,7 +1395,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         break;
 
                     case HEADER_STATE_CONTENT_LENGTH:
-                        if(byte == ' ') {
+                        if(byte == ' ' || byte == '\t') {
                             header_state = HEADER_STATE_CONTENT_LENGTH_END;
                             break;
                         }
@@ -1416,9 +1416,9 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         /* breaks the switch */
                         break;
 
-                    /* only spaces may follow the length */
+                    /* only spaces and tabs may follow the length */
                     case HEADER_STATE_CONTENT_LENGTH_END:
-                        if(byte != ' ') {
+                        if(byte != ' ' && byte != '\t') {
                             goto error;
                         }
 
@@ -1466,7 +1466,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                         break;
 
                     case HEADER_STATE_TRANSFER_ENCODING_CHUNKED:
-                        if(byte != ' ') {
+                        if(byte != ' ' && byte != '\t') {
                             if(http_parser->type == HTTP_REQUEST) { goto error; }
                             header_state = HEADER_STATE_GENERAL;
                         }
@@ -1476,7 +1476,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
                     case HEADER_STATE_CONNECTION_KEEP_ALIVE:
                     case HEADER_STATE_CONNECTION_CLOSE:
-                        if(byte != ' ') {
+                        if(byte != ' ' && byte != '\t') {
                             header_state = HEADER_STATE_GENERAL;
                         }
 
-- 
2.43.0


From d13435f04dba1c79c6841f114ca10d785f25e588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:19 +0000
Subject: [PATCH 64/77] fix: the head of a message of any size was held in
 memory

---
 src/viriatum/http/http_parser.c           | 11 +++++++++++
 src/viriatum_commons/global/definitions.h |  2 ++
 2 files changed, 13 insertions(+)

diff --git a/src/viriatum/http/http_parser.c b/src/viriatum/http/http_parser.c
index 84b201a..abd0342 100644
--- a/src/viriatum/http/http_parser.c
+++ b/src/viriatum/http/http_parser.c
@@ -175,6 +175,14 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
         must be break so that no more that one parse is done */
         if(parse_count > 0) { break; }
 
+        /* in case the head of a message (or the one of a chunk) is being
+        parsed counts the byte, the head must remain in memory until it's
+        complete and so its size must be limited */
+        if((state < STATE_CHUNK_SIZE_START || state == STATE_HEADERS_ALMOST_DONE) &&\
+            ++read_count > VIRIATUM_MAX_HEAD_SIZE) {
+            goto error;
+        }
+
         /* switch over the current state in order to trigger
         the correct parsing logic for the current state */
         switch(state) {
@@ -189,6 +197,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
                 /* sets the initial parser values */
                 http_parser->flags = 0;
                 http_parser->content_length = -1;
+                read_count = 1;
 
                 /* calls the message begin callback indicating
                 that a new message parsing as just begin */
@@ -226,6 +235,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
             case STATE_START_RES:
                 http_parser->flags = 0;
                 http_parser->content_length = -1;
+                read_count = 1;
 
                 HTTP_CALLBACK(message_begin);
 
@@ -432,6 +442,7 @@ int process_data_http_parser(struct http_parser_t *http_parser, struct http_sett
 
                 http_parser->flags = 0;
                 http_parser->content_length = -1;
+                read_count = 1;
 
                 HTTP_CALLBACK(message_begin);
 
diff --git a/src/viriatum_commons/global/definitions.h b/src/viriatum_commons/global/definitions.h
index f3fdb11..dbf71d2 100644
--- a/src/viriatum_commons/global/definitions.h
+++ b/src/viriatum_commons/global/definitions.h
@@ -83,6 +83,7 @@
 #define VIRIATUM_HTTP_MAX_SIZE VIRIATUM_HTTP_SIZE + 16 * VIRIATUM_MAX_HEADER_C_SIZE + VIRIATUM_MAX_HEADER_P_SIZE
 #define VIRIATUM_MAX_WORKERS 64
 #define VIRIATUM_MAX_URL_SIZE 4096
+#define VIRIATUM_MAX_HEAD_SIZE 1048576
 #define VIRIATUM_MAX_PATH_SIZE 1024
 #define VIRIATUM_MAX_EXTENSION_SIZE 256
 #define VIRIATUM_MAX_SSL_SIZE 128
@@ -97,6 +98,7 @@
 #define VIRIATUM_HTTP_MAX_SIZE VIRIATUM_HTTP_SIZE + 16 * VIRIATUM_MAX_HEADER_C_SIZE + VIRIATUM_MAX_HEADER_P_SIZE
 #define VIRIATUM_MAX_WORKERS 64
 #define VIRIATUM_MAX_URL_SIZE 4096
+#define VIRIATUM_MAX_HEAD_SIZE 1048576
 #define VIRIATUM_MAX_PATH_SIZE 1024
 #define VIRIATUM_MAX_EXTENSION_SIZE 256
 #define VIRIATUM_MAX_SSL_SIZE 128
-- 
2.43.0


From 2b40ed075a6405f4901aa0d98d7c1b4f00b06de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:19 +0000
Subject: [PATCH 65/77] fix: the requests received while another one is
 answered were held in memory without a limit

---
 src/viriatum/stream/stream_http.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/viriatum/stream/stream_http.c b/src/viriatum/stream/stream_http.c
index 7b7b2ca..98272b7 100644
--- a/src/viriatum/stream/stream_http.c
+++ b/src/viriatum/stream/stream_http.c
@@ -328,6 +328,20 @@ ERROR_CODE data_handler_stream_http(struct io_connection_t *io_connection, unsig
         if(processed_size == 0 || (size_t) processed_size == _read_size) { break; }
     }
 
+    /* in case the connection is no longer open there's nothing
+    more to be done (the current structures are not valid) */
+    if(connection->status != STATUS_OPEN) { RAISE_NO_ERROR; }
+
+    /* in case there's a request being handled and too much data is
+    waiting for it, stops reading until that data is processed */
+    _read_size = http_connection->buffer_offset - http_connection->read_offset;
+    if(http_connection->lock && _read_size >= VIRIATUM_MAX_READ) {
+        if(connection->read_registered == TRUE) { connection->unregister_read(connection); }
+    } else if(connection->read_registered == FALSE) {
+        connection->register_read(connection);
+        connection->add_outstanding(connection);
+    }
+
     /* raises no error */
     RAISE_NO_ERROR;
 }
-- 
2.43.0


From 55e8720d770e7fe5654e6dcf1c569946d0649579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:53 +0000
Subject: [PATCH 66/77] fix: modules that failed to load, to describe
 themselves or to start were used and stopped

---
 src/viriatum/module/loading.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/module/loading.c b/src/viriatum/module/loading.c
index 914c47f..1053b1c 100644
--- a/src/viriatum/module/loading.c
+++ b/src/viriatum/module/loading.c
@@ -162,6 +162,7 @@ ERROR_CODE load_module(struct service_t *service, unsigned char *module_path) {
         /* prints a warning message, and then raises
         an error indicating the problem loading the library */
         V_WARNING_F("No such symbol '%s' in library\n", info_module_name);
+        UNLOAD_LIBRARY(library);
         RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem finding symbol");
     } else {
         /* prints a debug message about the finding of
@@ -187,8 +188,13 @@ ERROR_CODE load_module(struct service_t *service, unsigned char *module_path) {
 
     /* tests the error code for error */
     if(IS_ERROR_CODE(error_code)) {
-        /* prints a warning message */
+        /* prints a warning message and then releases the complete
+        set of structures, the module is not going to be started */
         V_WARNING_F("%s\n", GET_ERROR_MODULE(module));
+        delete_module(module);
+        delete_environment(environment);
+        UNLOAD_LIBRARY(library);
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem retrieving module information");
     }
 
     /* calls the start module function, this sould
@@ -197,8 +203,13 @@ ERROR_CODE load_module(struct service_t *service, unsigned char *module_path) {
 
     /* tests the error code for error */
     if(IS_ERROR_CODE(error_code)) {
-        /* prints a warning message */
+        /* prints a warning message and then releases the complete
+        set of structures, the module must not be used nor stopped */
         V_WARNING_F("%s\n", GET_ERROR_MODULE(module));
+        delete_module(module);
+        delete_environment(environment);
+        UNLOAD_LIBRARY(library);
+        RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem starting module");
     }
 
     /* adds the module to the list of modlues handlers in the service */
-- 
2.43.0


From 008e06cc35962b1b8bf0349adc8a99e3e0876c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:54 +0000
Subject: [PATCH 67/77] fix: the name of a module was read beyond the end of
 the name of its file

---
 src/viriatum/system/service.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index 23c9280..a6277a2 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -1335,8 +1335,10 @@ ERROR_CODE load_modules_service(struct service_t *service) {
         /* tries to find the module prefix in the current entry name
         in case it's not found continues the loop immediately no library
         loading is required (not the correct format) */
-        pointer = strstr((char *) entry->name, "viriatum_");
-        if(pointer != (char *) entry->name && pointer != (char *) entry->name + 3) { continue; }
+        pointer = strstr((char *) entry->name, "viriatum_mod_");
+        if(pointer == NULL) { continue; }
+        pointer += sizeof("viriatum_mod_") - 1;
+        if(pointer != (char *) entry->name + (VIRIATUM_MODULE_PREFIX)) { continue; }
 
         /* loads the module, retrieving a possible error code in case
         there was a problem in the middle of the module load */
-- 
2.43.0


From fe861db0d8ddef746a4e6ea611b1f072aa560fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:54 +0000
Subject: [PATCH 68/77] fix: the picture and the diagnostics were sent in the
 answers of HEAD requests

---
 modules/mod_diag/src/viriatum_mod_diag/module/handler.c | 6 ++++--
 modules/mod_gif/src/viriatum_mod_gif/module/handler.c   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/modules/mod_diag/src/viriatum_mod_diag/module/handler.c b/modules/mod_diag/src/viriatum_mod_diag/module/handler.c
index c833e36..f34b826 100644
--- a/modules/mod_diag/src/viriatum_mod_diag/module/handler.c
+++ b/modules/mod_diag/src/viriatum_mod_diag/module/handler.c
@@ -142,8 +142,10 @@ ERROR_CODE _send_response_handler_diag(struct http_parser_t *http_parser) {
         CONTENT_TYPE_H ": %s\r\n\r\n",
         "application/json"
     );
-    memcpy(&buffer[count], info, info_size);
-    count += info_size;
+    if(http_parser->method != HTTP_HEAD) {
+        memcpy(&buffer[count], info, info_size);
+        count += info_size;
+    }
 
     /* writes the response to the connection, this will write the
     complete message to the connection, upon finishing the sent operation
diff --git a/modules/mod_gif/src/viriatum_mod_gif/module/handler.c b/modules/mod_gif/src/viriatum_mod_gif/module/handler.c
index f0bb13b..cd8b44f 100644
--- a/modules/mod_gif/src/viriatum_mod_gif/module/handler.c
+++ b/modules/mod_gif/src/viriatum_mod_gif/module/handler.c
@@ -103,8 +103,10 @@ ERROR_CODE _send_response_handler_gif(struct http_parser_t *http_parser) {
         CONTENT_TYPE_H ": %s\r\n\r\n",
         "image/gif"
     );
-    memcpy(&buffer[count], _empty_gif, _empty_gif_size);
-    count += _empty_gif_size;
+    if(http_parser->method != HTTP_HEAD) {
+        memcpy(&buffer[count], _empty_gif, _empty_gif_size);
+        count += _empty_gif_size;
+    }
 
     /* writes the response to the connection, this will write the
     complete message to the connection, upon finishing the sent operation
-- 
2.43.0


From 16d896b10bd90b1e9ff334ea24597ef03a0fc9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:34 +0000
Subject: [PATCH 69/77] fix: an answer that a script wrote in parts ended with
 the first of them

---
 modules/mod_lua/src/viriatum_mod_lua/module/handler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
index e4a8f4d..284108c 100644
--- a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
+++ b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
@@ -271,6 +271,10 @@ ERROR_CODE _send_response_callback_handler_lua(struct connection_t *connection,
     struct io_connection_t *io_connection = (struct io_connection_t *) connection->lower;
     struct http_connection_t *http_connection = (struct http_connection_t *) io_connection->lower;
 
+    /* in case there's more data of the response to be sent (the script
+    may write it in parts) must wait for the sending of the last part */
+    if(connection->write_queue->size > 0) { RAISE_NO_ERROR; }
+
     /* in case there is an HTTP handler in the current connection must
     unset it (remove temporary information) */
     if(http_connection->http_handler) {
-- 
2.43.0


From 2581c5bc4ca62da64078d732b6e931a2a3db5d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:34 +0000
Subject: [PATCH 70/77] fix: a script that failed after it answered was
 answered twice

---
 modules/mod_lua/src/viriatum_mod_lua/module/handler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
index 284108c..56a0ea0 100644
--- a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
+++ b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
@@ -311,6 +311,11 @@ ERROR_CODE _write_error_connection_lua(struct http_parser_t *http_parser, char *
     struct io_connection_t *io_connection = (struct io_connection_t *) connection->lower;
     struct http_connection_t *http_connection = (struct http_connection_t *) io_connection->lower;
 
+    /* in case the script has already written (part of) the response must
+    return immediately, a second response would be taken as the one of
+    the next request */
+    if(connection->write_queue->size > 0) { RAISE_NO_ERROR; }
+
     /* allocates the data buffer (in a safe maner) then
     writes the HTTP static headers to the response */
     connection->alloc_data(connection, VIRIATUM_HTTP_SIZE, (void **) &buffer);
-- 
2.43.0


From c771757079a46a0d08310f9ae6a99b47abc9424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:34 +0000
Subject: [PATCH 71/77] fix: a script could send the memory after the string it
 wrote

---
 .../src/viriatum_mod_lua/module/handler.c     | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
index 56a0ea0..ce02b72 100644
--- a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
+++ b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
@@ -343,8 +343,9 @@ int _lua_write_connection(lua_State *lua_state) {
     /* allocates the (final) buffer to send the message */
     unsigned char *buffer;
 
-    /* allocates the data size */
+    /* allocates the data size and the one of the string */
     unsigned int data_size;
+    size_t string_size;
 
     /* allocates the HTTP parser */
     struct http_parser_t *http_parser;
@@ -392,11 +393,22 @@ int _lua_write_connection(lua_State *lua_state) {
         lua_error(lua_state);
     }
 
-    /* converts the third argument into an integer */
-    data_size = lua_tointeger(lua_state, -1);
-
     /* converts the second argument into a string */
-    data = lua_tostring(lua_state, -2);
+    data = lua_tolstring(lua_state, -2, &string_size);
+
+    /* verifies that the size is not larger than the string,
+    the memory after the string must not be sent */
+    if(!(lua_tonumber(lua_state, -1) >= 0 && lua_tonumber(lua_state, -1) <= string_size)) {
+        /* prints a warning message */
+        V_WARNING("Incorrect argument 'size out of bounds'\n");
+
+        /* pushes an error message to Lua */
+        lua_pushstring(lua_state, "Incorrect argument 'size out of bounds'");
+        lua_error(lua_state);
+    }
+
+    /* converts the third argument into an integer */
+    data_size = (unsigned int) lua_tointeger(lua_state, -1);
 
     /* converts the first argument into HTTP parser structure */
     http_parser = (struct http_parser_t *) lua_touserdata(lua_state, -3);
-- 
2.43.0


From f8b5ed5288b80cc01135833bd4aead829723e86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:27 +0000
Subject: [PATCH 72/77] fix: the error messages of the calls of a script were
 kept forever

---
 modules/mod_lua/src/viriatum_mod_lua/module/handler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
index ce02b72..7e50198 100644
--- a/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
+++ b/modules/mod_lua/src/viriatum_mod_lua/module/handler.c
@@ -206,6 +206,10 @@ ERROR_CODE _send_response_handler_lua(struct http_parser_t *http_parser) {
         RAISE_ERROR_M(RUNTIME_EXCEPTION_ERROR_CODE, (unsigned char *) "Problem accessing Lua state");
     }
 
+    /* removes from the stack the values of previous calls (error
+    messages and returned values), they are no longer required */
+    lua_settop(mod_lua_http_handler->lua_state, 0);
+
     /* registers the current connection in Lua */
     lua_pushlightuserdata(mod_lua_http_handler->lua_state, (void *) http_parser);
     lua_setglobal(mod_lua_http_handler->lua_state, "connection");
-- 
2.43.0


From 1f6f819adbd0158e89af72bc8365b621114f1a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:28 +0000
Subject: [PATCH 73/77] fix: the select polling used connections that were
 already released

---
 src/viriatum/polling/polling_select.c | 35 +++++++++++++++++++++++++++
 src/viriatum/polling/polling_select.h |  5 ++++
 2 files changed, 40 insertions(+)

diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index f9d1845..9fd9967 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -173,6 +173,19 @@ ERROR_CODE unregister_connection_polling_select(
         );
     }
 
+    /* removes the connection from the outstanding buffers, as it
+    may be released before the next processing of those buffers */
+    _remove_outstanding_polling_select(
+        polling_select->read_outstanding,
+        &polling_select->read_outstanding_size,
+        connection
+    );
+    _remove_outstanding_polling_select(
+        polling_select->write_outstanding,
+        &polling_select->write_outstanding_size,
+        connection
+    );
+
     /* in case the remove connection flag is set the connection
     is also added to the list of connections to be removed
     after the io driven logic part is processed (at the end
@@ -714,6 +727,28 @@ ERROR_CODE _call_polling_select(
     RAISE_NO_ERROR;
 }
 
+void _remove_outstanding_polling_select(
+    struct connection_t **outstanding,
+    size_t *outstanding_size,
+    struct connection_t *connection
+) {
+    /* allocates space for the indexes of the read and of
+    the write positions in the buffer */
+    size_t index;
+    size_t target = 0;
+
+    /* iterates over the buffer moving every other connection
+    to the first available position */
+    for(index = 0; index < *outstanding_size; index++) {
+        if(outstanding[index] == connection) { continue; }
+        outstanding[target] = outstanding[index];
+        target++;
+    }
+
+    /* updates the size of the buffer */
+    *outstanding_size = target;
+}
+
 ERROR_CODE _outstanding_polling_select(
     struct polling_select_t *polling_select,
     struct connection_t **read_outstanding,
diff --git a/src/viriatum/polling/polling_select.h b/src/viriatum/polling/polling_select.h
index d8124d1..602a40c 100644
--- a/src/viriatum/polling/polling_select.h
+++ b/src/viriatum/polling/polling_select.h
@@ -224,6 +224,11 @@ ERROR_CODE _outstanding_polling_select(
     size_t read_outstanding_size,
     size_t write_outstanding_size
 );
+void _remove_outstanding_polling_select(
+    struct connection_t **outstanding,
+    size_t *outstanding_size,
+    struct connection_t *connection
+);
 ERROR_CODE _register_sockets_set_polling_select(
     struct polling_select_t *polling_select,
     SOCKET_HANDLE socket_handle,
-- 
2.43.0


From 16cdd147de50a85ac15f903cae606fefff901111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:29 +0000
Subject: [PATCH 74/77] fix: connections that can't be registered for polling
 were kept and never served

---
 src/viriatum/handlers/handler_proxy.c | 13 +++++++++++--
 src/viriatum/polling/polling_select.c | 11 +++++++++++
 src/viriatum/stream/stream_io.c       | 14 ++++++++++++--
 src/viriatum/system/service.c         | 23 ++++++++++++++++++-----
 4 files changed, 52 insertions(+), 9 deletions(-)

diff --git a/src/viriatum/handlers/handler_proxy.c b/src/viriatum/handlers/handler_proxy.c
index d248c86..ef32264 100644
--- a/src/viriatum/handlers/handler_proxy.c
+++ b/src/viriatum/handlers/handler_proxy.c
@@ -690,8 +690,17 @@ ERROR_CODE virtual_url_callback_handler_proxy(struct http_parser_t *http_parser,
         connection_c->parameters = (void *) parameters;
 
         /* opens the connection, starting the chain of events
-        further action will only occur in callbacks */
-        connection_c->open_connection(connection_c);
+        further action will only occur in callbacks, in case that's
+        not possible the connection is dropped (no backend) */
+        return_value = connection_c->open_connection(connection_c);
+        if(IS_ERROR_CODE(return_value)) {
+            V_ERROR_F("Problem opening backend connection (%s)\n", (char *) GET_ERROR());
+            io_connection->on_close = on_close;
+            handler_proxy_context->connection_c = NULL;
+            SOCKET_CLOSE(connection_c->socket_handle);
+            delete_connection(connection_c);
+            RAISE_NO_ERROR;
+        }
 
         /* updates the connection with the client (backend) value
         so that the current connection is allways going to use the
diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 9fd9967..3b774e0 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -116,6 +116,17 @@ ERROR_CODE register_connection_polling_select(struct polling_t *polling, struct
     /* retrieves the polling select */
     struct polling_select_t *polling_select = (struct polling_select_t *) polling->lower;
 
+#ifdef VIRIATUM_PLATFORM_UNIX
+    /* in case the socket handle does not fit the sets of the select
+    call the connection can't be registered in them */
+    if(connection->socket_handle >= FD_SETSIZE) {
+        RAISE_ERROR_M(
+            RUNTIME_EXCEPTION_ERROR_CODE,
+            (unsigned char *) "Socket handle too large for select"
+        );
+    }
+#endif
+
     /* registers the socket handle in the sockets read set */
     _register_sockets_set_polling_select(
         polling_select,
diff --git a/src/viriatum/stream/stream_io.c b/src/viriatum/stream/stream_io.c
index 20014b9..d2ac916 100644
--- a/src/viriatum/stream/stream_io.c
+++ b/src/viriatum/stream/stream_io.c
@@ -67,6 +67,9 @@ ERROR_CODE accept_handler_stream_io(struct connection_t *connection) {
     /* allocates the (client) connection */
     struct connection_t *client_connection;
 
+    /* allocates space for the result of the opening */
+    ERROR_CODE return_value;
+
     /* allocates the option value and sets it to one (valid) */
     SOCKET_OPTION option_value = 1;
 
@@ -160,8 +163,15 @@ ERROR_CODE accept_handler_stream_io(struct connection_t *connection) {
             client_connection->on_close = close_handler_stream_io;
 
             /* opens the connection, this should add the client
-            connection to the polling system */
-            client_connection->open_connection(client_connection);
+            connection to the polling system, in case that's not possible
+            the connection is dropped as it would never be handled */
+            return_value = client_connection->open_connection(client_connection);
+            if(IS_ERROR_CODE(return_value)) {
+                V_WARNING_F("Problem opening connection (%s)\n", (char *) GET_ERROR());
+                SOCKET_CLOSE(socket_handle);
+                delete_connection(client_connection);
+                continue;
+            }
 
 #ifdef VIRIATUM_SSL
             /* in case the connection "contains" an ssl context defined
diff --git a/src/viriatum/system/service.c b/src/viriatum/system/service.c
index a6277a2..081486b 100644
--- a/src/viriatum/system/service.c
+++ b/src/viriatum/system/service.c
@@ -1448,13 +1448,18 @@ ERROR_CODE create_modules_label(struct service_t *service) {
 }
 
 ERROR_CODE add_connection_service(struct service_t *service, struct connection_t *connection) {
+    /* allocates space for the result of the registration */
+    ERROR_CODE return_value;
+
     /* retrieves the polling (provider) */
     struct polling_t *polling = service->polling;
 
-    /* adds the connection to the connections list and then
-    registes the connection in the polling (provider) */
+    /* registes the connection in the polling (provider) and then
+    adds it to the connections list, a connection that can't be
+    registered would never be notified */
+    return_value = polling->register_connection(polling, connection);
+    if(IS_ERROR_CODE(return_value)) { RAISE_AGAIN(return_value); }
     append_value_linked_list(service->connections_list, connection);
-    polling->register_connection(polling, connection);
 
     /* raises no error */
     RAISE_NO_ERROR;
@@ -1735,6 +1740,9 @@ ERROR_CODE write_connection_c(
 }
 
 ERROR_CODE open_connection(struct connection_t *connection) {
+    /* allocates space for the result of the adding operation */
+    ERROR_CODE return_value;
+
     /* in case the connection is (already) open, must return
     immediately with no error (duplicated operation) */
     if(connection->status == STATUS_OPEN) { RAISE_NO_ERROR; }
@@ -1745,8 +1753,13 @@ ERROR_CODE open_connection(struct connection_t *connection) {
     /* sets the connection status as open */
     connection->status = STATUS_OPEN;
 
-    /* adds the connection to the service select */
-    add_connection_service(connection->service, connection);
+    /* adds the connection to the service select, in case that's
+    not possible the connection is not considered to be open */
+    return_value = add_connection_service(connection->service, connection);
+    if(IS_ERROR_CODE(return_value)) {
+        connection->status = STATUS_CLOSED;
+        RAISE_AGAIN(return_value);
+    }
 
     /* in case the on open handler is defined */
     if(connection->on_open != NULL) {
-- 
2.43.0


From ec382970691690371437f20fae40cafc809875d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:29 +0000
Subject: [PATCH 75/77] fix: the select polling was notified again and again
 while a handshake could not write

---
 src/viriatum/polling/polling_select.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index 3b774e0..e24957d 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -441,6 +441,23 @@ ERROR_CODE _poll_polling_select(
     polling_select->sockets_read_set_temporary = polling_select->sockets_read_set;
     polling_select->sockets_write_set_temporary = polling_select->sockets_write_set;
 
+    /* iterates over the connections to avoid waiting for data in the
+    ones that are going to read it only when they are writable, the
+    pending data would be notified again and again until that */
+    create_iterator_linked_list(connections_list, &connections_list_iterator);
+    while(TRUE) {
+        get_next_iterator(connections_list_iterator, (void **) &current_connection);
+        if(current_connection == NULL) { break; }
+        if(current_connection->write_registered == FALSE) { continue; }
+        if(current_connection->status != STATUS_HANDSHAKE &&\
+            current_connection->read_blocked == FALSE) { continue; }
+        SOCKET_SET_CLEAR(
+            current_connection->socket_handle,
+            &polling_select->sockets_read_set_temporary
+        );
+    }
+    delete_iterator_linked_list(connections_list, connections_list_iterator);
+
     /* copies the select timeout to the select timeout temporary */
     polling_select->select_timeout_temporary = polling_select->select_timeout;
 
-- 
2.43.0


From 8a64f86300a50f875567a4a71f83a79d8321c6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:27 +0000
Subject: [PATCH 76/77] fix: closing many connections at once overflowed the
 select polling

---
 src/viriatum/polling/polling_select.c | 17 +++++++++++++++++
 src/viriatum/polling/polling_select.h |  8 +++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/viriatum/polling/polling_select.c b/src/viriatum/polling/polling_select.c
index e24957d..1d0bc64 100644
--- a/src/viriatum/polling/polling_select.c
+++ b/src/viriatum/polling/polling_select.c
@@ -44,6 +44,8 @@ void create_polling_select(struct polling_select_t **polling_select_pointer, str
     polling_select->write_connections_size = 0;
     polling_select->error_connections_size = 0;
     polling_select->remove_connections_size = 0;
+    polling_select->remove_connections = NULL;
+    polling_select->remove_connections_capacity = 0;
     polling_select->read_outstanding_size = 0;
     polling_select->write_outstanding_size = 0;
 
@@ -65,6 +67,10 @@ void create_polling_select(struct polling_select_t **polling_select_pointer, str
 }
 
 void delete_polling_select(struct polling_select_t *polling_select) {
+    /* releases the buffer of the connections to be removed, in
+    case it has been allocated */
+    if(polling_select->remove_connections) { FREE(polling_select->remove_connections); }
+
     /* releases the polling select */
     FREE(polling_select);
 }
@@ -202,6 +208,17 @@ ERROR_CODE unregister_connection_polling_select(
     after the io driven logic part is processed (at the end
     of the logic loop) */
     if(remove_c == TRUE) {
+        /* grows the buffer in case it's full, the socket handles are
+        re-used and so it may hold more connections than the ones that
+        are possible at the same time */
+        if(polling_select->remove_connections_size ==\
+            polling_select->remove_connections_capacity) {
+            polling_select->remove_connections_capacity += VIRIATUM_MAX_EVENTS;
+            polling_select->remove_connections = (struct connection_t **) REALLOC(
+                (void *) polling_select->remove_connections,
+                polling_select->remove_connections_capacity * sizeof(struct connection_t *)
+            );
+        }
         remove_connection(
             polling_select->remove_connections,
             &polling_select->remove_connections_size,
diff --git a/src/viriatum/polling/polling_select.h b/src/viriatum/polling/polling_select.h
index 602a40c..ca62b3f 100644
--- a/src/viriatum/polling/polling_select.h
+++ b/src/viriatum/polling/polling_select.h
@@ -98,7 +98,7 @@ typedef struct polling_select_t {
      * to be house-kept (removed) at the end
      * of the polling cycle.
      */
-    struct connection_t *remove_connections[VIRIATUM_MAX_EVENTS];
+    struct connection_t **remove_connections;
 
     /**
      * The buffer that contains the various
@@ -152,6 +152,12 @@ typedef struct polling_select_t {
      */
     size_t remove_connections_size;
 
+    /**
+     * The number of connections for which there's
+     * space in the remove connections buffer.
+     */
+    size_t remove_connections_capacity;
+
     /**
      * The size as items of the sequence of
      * connections that are pending to be read
-- 
2.43.0


From 07ce371a13c79124fe3bb6c416b20315b1d02fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:48 +0000
Subject: [PATCH 77/77] fix: the limits of integers were only known through the
 headers of OpenSSL

A build without OpenSSL did not compile, as nothing else brought in the
header that defines INT_MAX, which the HTTP parser uses.
---
 src/viriatum_commons/stdafx.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/viriatum_commons/stdafx.h b/src/viriatum_commons/stdafx.h
index 41bf5ce..03e93ce 100644
--- a/src/viriatum_commons/stdafx.h
+++ b/src/viriatum_commons/stdafx.h
@@ -150,6 +150,7 @@ the windows xp operative system, must disable ipv6 */
 #endif
 
 #include <ctype.h>
+#include <limits.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <stdarg.h>
-- 
2.43.0

