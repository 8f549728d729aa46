From db8de67aedff15cb27bbc58ae3a6b38c85380825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:48 +0000
Subject: [PATCH 01/28] fix: hard checkpoint must not overwrite the most recent
 soft checkpoint

If the most recent soft checkpoint was in the first slot of its pair, the
first copy of the hard checkpoint overwrote it: a process killed before the
second copy lost transactions whose soft checkpoint had returned.
---
 src/joedb/journal/Writable_Journal.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index 8cc269d..d08bc3d 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -142,11 +142,24 @@ namespace joedb
 
   file_buffer.flush();
 
+  Head_Exclusive_Lock lock(file);
+
+  // the first copy must not overwrite the most recent soft checkpoint
+  if (soft_index == 0 && checkpoint_position > hard_checkpoint_position)
+  {
+   const int64_t neg = -checkpoint_position;
+
+   file.pwrite
+   (
+    reinterpret_cast<const char *>(&neg),
+    sizeof(neg),
+    int64_t(sizeof(neg)) * (2 * (hard_index ^ 1) + 1)
+   );
+  }
+
   hard_index ^= 1;
   hard_checkpoint_position = checkpoint_position = position;
 
-  Head_Exclusive_Lock lock(file);
-
   file.pwrite
   (
    reinterpret_cast<const char *>(&checkpoint_position),
-- 
2.43.0


From a334a58a17918c4a01d5edd53714997518b1b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:06 +0000
Subject: [PATCH 02/28] fix: recovering a journal must remove soft checkpoints
 left by a power failure

---
 src/joedb/journal/Writable_Journal.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index d08bc3d..a77663b 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -58,11 +58,15 @@ namespace joedb
    );
   }
 
-  // overwrite after-the-end-of-file soft checkpoint
-  if (lock.recovery == Recovery::overwrite && checkpoint_position == lock.size)
+  // overwrite both soft checkpoints, to forget those after the end of the file
+  if (lock.recovery == Recovery::overwrite && lock.size > 0)
   {
-   checkpoint_position = -1;
-   soft_checkpoint_at(lock.size);
+   const int64_t position = checkpoint_position;
+   for (int i = 0; i < 2; i++)
+   {
+    checkpoint_position = -1;
+    soft_checkpoint_at(position);
+   }
   }
  }
 
-- 
2.43.0


From 2e64bc28f99bea8aa580fa245431df8658431f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 03/28] fix: get the size of a shared file after locking it

---
 .../journal/Journal_Construction_Lock.cpp     | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/joedb/journal/Journal_Construction_Lock.cpp b/src/joedb/journal/Journal_Construction_Lock.cpp
index 76cd5bf..438044e 100644
--- a/src/joedb/journal/Journal_Construction_Lock.cpp
+++ b/src/joedb/journal/Journal_Construction_Lock.cpp
@@ -3,15 +3,8 @@
 namespace joedb
 {
  ////////////////////////////////////////////////////////////////////////////
- Journal_Construction_Lock::Journal_Construction_Lock
+ static int64_t lock_and_get_size(Abstract_File &file)
  ////////////////////////////////////////////////////////////////////////////
- (
-  Abstract_File &file,
-  Recovery recovery
- ):
-  file(file),
-  recovery(recovery),
-  size(file.get_size())
  {
   if (file.is_readonly())
    file.shared_lock_head();
@@ -21,6 +14,22 @@ namespace joedb
     file.exclusive_lock_tail();
    file.exclusive_lock_head();
   }
+
+  // another process may change the size until the file is locked
+  return file.get_size();
+ }
+
+ ////////////////////////////////////////////////////////////////////////////
+ Journal_Construction_Lock::Journal_Construction_Lock
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  Abstract_File &file,
+  Recovery recovery
+ ):
+  file(file),
+  recovery(recovery),
+  size(lock_and_get_size(file))
+ {
  }
 
  ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 4732b1eaedd8cc4e2646012e0bd805b701109fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 04/28] fix: flush an aborted transaction before unlocking the
 file

---
 src/joedb/journal/Writable_Journal.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/joedb/journal/Writable_Journal.cpp b/src/joedb/journal/Writable_Journal.cpp
index a77663b..6a0973d 100644
--- a/src/joedb/journal/Writable_Journal.cpp
+++ b/src/joedb/journal/Writable_Journal.cpp
@@ -495,7 +495,15 @@ namespace joedb
  /////////////////////////////////////////////////////////////////////////////
  {
   if (file.is_shared())
+  {
+   // after unlocking, flushing could overwrite data of another process
+   if (ahead_of_checkpoint() > 0)
+   {
+    try { file_buffer.flush(); } catch (...) {}
+   }
+
    file.unlock_tail();
+  }
  }
 
  /////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From c8fd0f2de1f03917f7bde66d7cde12175cf93fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:19 +0000
Subject: [PATCH 05/28] fix: do not use the writer of a previous push after a
 conflict

---
 src/joedb/concurrency/Server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index a04519a..9105641 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -372,6 +372,7 @@ namespace joedb
   );
 
   push_status = buffer.data[0];
+  push_writer.reset(); // the writer of a previous push must not be used
 
   if (!get_server().writable_journal_client)
    push_status = 'R';
-- 
2.43.0


From b775e1d53ff718bcb6a6bec4211aecb18b874ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:19 +0000
Subject: [PATCH 06/28] fix: hash the whole file when pread returns less than
 what was asked

---
 src/joedb/journal/File_Hasher.cpp | 35 +++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/joedb/journal/File_Hasher.cpp b/src/joedb/journal/File_Hasher.cpp
index 9834517..bf2de84 100644
--- a/src/joedb/journal/File_Hasher.cpp
+++ b/src/joedb/journal/File_Hasher.cpp
@@ -6,6 +6,37 @@
 
 namespace joedb
 {
+ ////////////////////////////////////////////////////////////////////////////
+ static size_t read_block
+ ////////////////////////////////////////////////////////////////////////////
+ // pread may return less than what was asked before the end of the file
+ (
+  const Abstract_File &file,
+  char *buffer,
+  size_t size,
+  int64_t offset
+ )
+ {
+  size_t total = 0;
+
+  while (total < size)
+  {
+   const size_t n = file.pread
+   (
+    buffer + total,
+    size - total,
+    offset + int64_t(total)
+   );
+
+   if (n == 0)
+    break;
+
+   total += n;
+  }
+
+  return total;
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  SHA_256::Hash File_Hasher::get_hash
  ////////////////////////////////////////////////////////////////////////////
@@ -28,7 +59,7 @@ namespace joedb
    if (current_size + int64_t(block_size) > size)
     block_size = size_t(size - current_size);
 
-   const size_t read_count = file.pread(hashing_buffer.data(), block_size, start + current_size);
+   const size_t read_count = read_block(file, hashing_buffer.data(), block_size, start + current_size);
    current_size += int64_t(read_count);
    const uint32_t full_chunks = uint32_t(read_count / SHA_256::chunk_size);
    for (uint32_t i = 0; i < full_chunks; i++)
@@ -98,7 +129,7 @@ namespace joedb
     );
    }
 
-   file.pread(buffer.data(), buffer.size(), buffer_position);
+   read_block(file, buffer.data(), buffer.size(), buffer_position);
 
    for (size_t j = 0; j < buffer.size(); j += SHA_256::chunk_size)
     sha_256.process_chunk(buffer.data() + j);
-- 
2.43.0


From 6f7ce82f2f4b975dbf1fae6bb395255a4d82d023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:19 +0000
Subject: [PATCH 07/28] fix: do not write a request into the shared buffer
 before locking the channel

---
 src/joedb/concurrency/Server_Client.cpp     | 10 +++----
 src/joedb/concurrency/Server_Connection.cpp | 33 +++++++++++++--------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/joedb/concurrency/Server_Client.cpp b/src/joedb/concurrency/Server_Client.cpp
index 94558e4..4c36c8e 100644
--- a/src/joedb/concurrency/Server_Client.cpp
+++ b/src/joedb/concurrency/Server_Client.cpp
@@ -39,15 +39,13 @@ namespace joedb
  {
   logger.log("joedb::Server_Client::connect");
 
+  Lock<Channel&> lock(channel);
+
   buffer.index = 0;
   buffer.write<std::array<char, 5>>(Header::joedb);
   buffer.write<int64_t>(protocol_version);
-
-  {
-   Lock<Channel&> lock(channel);
-   lock->write(buffer.data, buffer.index);
-   lock->read(buffer.data, 5 + 8 + 8 + 8 + 1);
-  }
+  lock->write(buffer.data, buffer.index);
+  lock->read(buffer.data, 5 + 8 + 8 + 8 + 1);
 
   buffer.index = 0;
 
diff --git a/src/joedb/concurrency/Server_Connection.cpp b/src/joedb/concurrency/Server_Connection.cpp
index 8df0ec3..682236e 100644
--- a/src/joedb/concurrency/Server_Connection.cpp
+++ b/src/joedb/concurrency/Server_Connection.cpp
@@ -9,12 +9,13 @@ namespace joedb
  size_t Server_Connection::pread(char *data, size_t size, int64_t offset) const
  ////////////////////////////////////////////////////////////////////////////
  {
+  Lock<Channel&> lock(channel);
+
   buffer.index = 0;
   buffer.write<char>('r');
   buffer.write<int64_t>(offset);
   buffer.write<int64_t>(offset + int64_t(size));
 
-  Lock<Channel&> lock(channel);
   lock->write(buffer.data, buffer.index);
   lock->read(buffer.data, 9);
 
@@ -51,25 +52,28 @@ namespace joedb
    client_journal.get_checkpoint()
   );
 
-  buffer.index = 0;
-  buffer.write<char>(content_check == Content_Check::fast ? 'H' : 'I');
-  buffer.write<int64_t>(checkpoint);
-  buffer.write
-  (
-   content_check == Content_Check::fast
+  const SHA_256::Hash hash = content_check == Content_Check::fast
    ? Journal_Hasher::get_fast_hash(client_journal, checkpoint)
-   : Journal_Hasher::get_full_hash(client_journal, checkpoint)
-  );
+   : Journal_Hasher::get_full_hash(client_journal, checkpoint);
+
+  char result;
 
   {
    Lock<Channel&> lock(channel);
+
+   buffer.index = 0;
+   buffer.write<char>(content_check == Content_Check::fast ? 'H' : 'I');
+   buffer.write<int64_t>(checkpoint);
+   buffer.write(hash);
+
    lock->write(buffer.data, buffer.index);
    lock->read(buffer.data, 1);
+   result = buffer.data[0];
   }
 
-  log(std::string("hash result: ") + buffer.data[0]);
+  log(std::string("hash result: ") + result);
 
-  if (buffer.data[0] == 'h')
+  if (result == 'h')
    content_mismatch();
 
   return server_checkpoint;
@@ -189,16 +193,19 @@ namespace joedb
  {
   log("joedb::Server_Connection::unlock");
 
+  char reply;
+
   {
    Lock<Channel&> lock(channel);
    buffer.data[0] = 'M';
    lock->write(buffer.data, 1);
    lock->read(buffer.data, 1);
+   reply = buffer.data[0];
   }
 
-  log(std::string() + buffer.data[0]);
+  log(std::string() + reply);
 
-  if (buffer.data[0] != 'M')
+  if (reply != 'M')
    throw Disconnection("unlock error: unexpected reply");
  }
 }
-- 
2.43.0


From 65416cf1639ef3d71de4b64eef904be9ca72c0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:56 +0000
Subject: [PATCH 08/28] fix: detect that a client that was ahead has diverged
 from the server when pulling

---
 src/joedb/concurrency/File_Connection.cpp   |  52 +++++++-
 src/joedb/concurrency/File_Connection.h     |   6 +-
 src/joedb/concurrency/Server_Connection.cpp | 126 ++++++++++++++++----
 src/joedb/concurrency/Server_Connection.h   |   9 ++
 4 files changed, 162 insertions(+), 31 deletions(-)

diff --git a/src/joedb/concurrency/File_Connection.cpp b/src/joedb/concurrency/File_Connection.cpp
index bdfec3a..61d77ff 100644
--- a/src/joedb/concurrency/File_Connection.cpp
+++ b/src/joedb/concurrency/File_Connection.cpp
@@ -38,7 +38,39 @@ namespace joedb
    }
   }
 
-  return server_journal.get_checkpoint();
+  known_checkpoint = server_journal.get_checkpoint();
+
+  return known_checkpoint;
+ }
+
+ //////////////////////////////////////////////////////////////////////////
+ void Pullonly_Journal_Connection::pull_data(Writable_Journal &client_journal)
+ //////////////////////////////////////////////////////////////////////////
+ {
+  const int64_t server_checkpoint = server_journal.get_checkpoint();
+
+  //
+  // If the client was ahead, then what it already had may have diverged from
+  // what was added to the server since the previous pull.
+  //
+  const int64_t until = std::min
+  (
+   client_journal.get_checkpoint(),
+   server_checkpoint
+  );
+
+  if
+  (
+   until > known_checkpoint &&
+   !client_journal.equal_to(server_journal, known_checkpoint, until)
+  )
+  {
+   content_mismatch();
+  }
+
+  client_journal.pull_from(server_journal);
+
+  known_checkpoint = server_checkpoint;
  }
 
  //////////////////////////////////////////////////////////////////////////
@@ -57,7 +89,7 @@ namespace joedb
   server_journal.pull();
 
   if (bool(data_transfer))
-   client_journal.pull_from(server_journal);
+   pull_data(client_journal);
 
   return server_journal.get_checkpoint();
  }
@@ -99,7 +131,18 @@ namespace joedb
    get_journal().pull();
 
   if (bool(data_transfer))
-   client_journal.pull_from(server_journal);
+  {
+   try
+   {
+    pull_data(client_journal);
+   }
+   catch (const Content_Mismatch &)
+   {
+    if (bool(lock_action))
+     get_journal().unlock();
+    throw;
+   }
+  }
 
   return server_journal.get_checkpoint();
  }
@@ -117,7 +160,8 @@ namespace joedb
   if (from != server_journal.get_checkpoint())
    throw Exception("push error: conflict");
   get_journal().pull_from(client_journal, until);
-  return server_journal.get_checkpoint();
+  known_checkpoint = server_journal.get_checkpoint();
+  return known_checkpoint;
  }
 
  //////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/concurrency/File_Connection.h b/src/joedb/concurrency/File_Connection.h
index c90df9d..d56f37b 100644
--- a/src/joedb/concurrency/File_Connection.h
+++ b/src/joedb/concurrency/File_Connection.h
@@ -10,10 +10,14 @@ namespace joedb
  {
   protected:
    Readonly_Journal &server_journal;
+   int64_t known_checkpoint;
+
+   void pull_data(Writable_Journal &client_journal);
 
   public:
    Pullonly_Journal_Connection(Readonly_Journal &server_journal):
-    server_journal(server_journal)
+    server_journal(server_journal),
+    known_checkpoint(server_journal.get_checkpoint())
    {
    }
 
diff --git a/src/joedb/concurrency/Server_Connection.cpp b/src/joedb/concurrency/Server_Connection.cpp
index 682236e..b6c8cc3 100644
--- a/src/joedb/concurrency/Server_Connection.cpp
+++ b/src/joedb/concurrency/Server_Connection.cpp
@@ -3,6 +3,9 @@
 #include "joedb/error/Disconnection.h"
 #include "joedb/ui/Progress_Bar.h"
 
+#include <cstring>
+#include <vector>
+
 namespace joedb
 {
  ////////////////////////////////////////////////////////////////////////////
@@ -79,6 +82,44 @@ namespace joedb
   return server_checkpoint;
  }
 
+ ////////////////////////////////////////////////////////////////////////////
+ void Server_Connection::check_range
+ ////////////////////////////////////////////////////////////////////////////
+ (
+  const Readonly_Journal &client_journal,
+  int64_t from,
+  int64_t until
+ )
+ {
+  Async_Reader reader = client_journal.get_async_reader(from, until);
+  std::vector<char> client_data(buffer.size);
+  std::vector<char> server_data(buffer.size);
+
+  while (reader.get_remaining() > 0)
+  {
+   const int64_t offset = reader.get_current();
+   const size_t size = reader.read(client_data.data(), client_data.size());
+
+   for (size_t done = 0; done < size;)
+   {
+    const size_t n = pread
+    (
+     server_data.data() + done,
+     size - done,
+     offset + int64_t(done)
+    );
+
+    if (n == 0)
+     content_mismatch();
+
+    done += n;
+   }
+
+   if (size == 0 || std::memcmp(client_data.data(), server_data.data(), size))
+    content_mismatch();
+  }
+ }
+
  ////////////////////////////////////////////////////////////////////////////
  int64_t Server_Connection::pull
  ////////////////////////////////////////////////////////////////////////////
@@ -89,41 +130,74 @@ namespace joedb
   std::chrono::milliseconds wait
  )
  {
-  Lock<Channel&> lock(channel);
+  const int64_t client_checkpoint = client_journal.get_checkpoint();
+  int64_t new_server_checkpoint;
+  int64_t new_client_checkpoint = client_checkpoint;
 
-  const char pull_type = char('D' + int(lock_action) + 2*int(data_transfer));
+  {
+   Lock<Channel&> lock(channel);
 
-  log("pulling, lock = " + std::to_string(int(lock_action)) +
-   ", data = " + std::to_string(int(data_transfer)) +
-   ", wait = " + std::to_string(double(wait.count()) * 0.001)  + 's');
+   const char pull_type = char('D' + int(lock_action) + 2*int(data_transfer));
 
-  buffer.index = 0;
-  buffer.write<char>(pull_type);
-  buffer.write<int64_t>(wait.count());
-  buffer.write<int64_t>(client_journal.get_checkpoint());
-  lock->write(buffer.data, buffer.index);
+   log("pulling, lock = " + std::to_string(int(lock_action)) +
+    ", data = " + std::to_string(int(data_transfer)) +
+    ", wait = " + std::to_string(double(wait.count()) * 0.001)  + 's');
 
-  buffer.index = 0;
-  lock->read(buffer.data, 9);
-  {
-   const char reply = buffer.read<char>();
-   if (reply == 'R')
-    throw Disconnection("pull error: server is pull-only, cannot lock");
-   else if (reply != pull_type)
-    throw Disconnection("pull error: unexpected server reply");
+   buffer.index = 0;
+   buffer.write<char>(pull_type);
+   buffer.write<int64_t>(wait.count());
+   buffer.write<int64_t>(client_checkpoint);
+   lock->write(buffer.data, buffer.index);
+
+   buffer.index = 0;
+   lock->read(buffer.data, 9);
+   {
+    const char reply = buffer.read<char>();
+    if (reply == 'R')
+     throw Disconnection("pull error: server is pull-only, cannot lock");
+    else if (reply != pull_type)
+     throw Disconnection("pull error: unexpected server reply");
+   }
+   new_server_checkpoint = buffer.read<int64_t>();
+
+   if (bool(data_transfer))
+   {
+    buffer.index = 0;
+    const int64_t size = new_server_checkpoint - client_checkpoint;
+    Async_Writer writer = client_journal.get_async_tail_writer();
+    download(writer, lock, size);
+    new_client_checkpoint = writer.get_position();
+   }
+   else
+    log("!data_transfer");
   }
-  server_checkpoint = buffer.read<int64_t>();
 
+  //
+  // If the client was ahead, then what it already had may have diverged from
+  // what was added to the server since the previous pull.
+  //
   if (bool(data_transfer))
   {
-   buffer.index = 0;
-   const int64_t size = server_checkpoint - client_journal.get_checkpoint();
-   Async_Writer writer = client_journal.get_async_tail_writer();
-   download(writer, lock, size);
-   client_journal.soft_checkpoint_at(writer.get_position());
+   try
+   {
+    check_range
+    (
+     client_journal,
+     server_checkpoint,
+     std::min(client_checkpoint, new_server_checkpoint)
+    );
+   }
+   catch (const Content_Mismatch &)
+   {
+    if (bool(lock_action))
+     unlock();
+    throw;
+   }
+
+   client_journal.soft_checkpoint_at(new_client_checkpoint);
   }
-  else
-   log("!data_transfer");
+
+  server_checkpoint = new_server_checkpoint;
 
   return server_checkpoint;
  }
diff --git a/src/joedb/concurrency/Server_Connection.h b/src/joedb/concurrency/Server_Connection.h
index f37769d..788515c 100644
--- a/src/joedb/concurrency/Server_Connection.h
+++ b/src/joedb/concurrency/Server_Connection.h
@@ -9,6 +9,15 @@ namespace joedb
  /// @ingroup concurrency
  class Server_Connection: public Server_Client, public Connection
  {
+  private:
+   /// Throw Content_Mismatch if a range differs between client and server
+   void check_range
+   (
+    const Readonly_Journal &client_journal,
+    int64_t from,
+    int64_t until
+   );
+
   public:
    Server_Connection
    (
-- 
2.43.0


From 40baa5df338cad70bc587a22a8d72e3fdd448f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:28 +0000
Subject: [PATCH 09/28] fix: a lock timeout that had already expired must not
 run after the end of the session

---
 src/joedb/concurrency/Server.cpp | 10 ++++++++--
 src/joedb/concurrency/Server.h   |  2 ++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/joedb/concurrency/Server.cpp b/src/joedb/concurrency/Server.cpp
index 9105641..1e49804 100644
--- a/src/joedb/concurrency/Server.cpp
+++ b/src/joedb/concurrency/Server.cpp
@@ -126,6 +126,7 @@ namespace joedb
 
    locking = false;
    lock_timeout_timer.cancel();
+   ++*lock_timeout_count;
 
    if (get_server().lock_waiters.empty())
    {
@@ -150,9 +151,14 @@ namespace joedb
    lock_timeout_timer.expires_after(get_server().lock_timeout);
    lock_timeout_timer.async_wait
    (
-    [this](std::error_code error)
+    // if the timer had already expired, then this may run after the lock was
+    // refreshed or released, and even after the end of the session.
+    [this, count = ++*lock_timeout_count, current = lock_timeout_count]
+    (
+     std::error_code error
+    )
     {
-     if (!error)
+     if (!error && count == *current)
      {
       if (get_server().log_level > 2)
        log("timeout");
diff --git a/src/joedb/concurrency/Server.h b/src/joedb/concurrency/Server.h
index de9fd5a..6cb230e 100644
--- a/src/joedb/concurrency/Server.h
+++ b/src/joedb/concurrency/Server.h
@@ -6,6 +6,7 @@
 
 #include <deque>
 #include <map>
+#include <memory>
 #include <optional>
 
 namespace joedb
@@ -28,6 +29,7 @@ namespace joedb
      bool locking = false;
 
      boost::asio::steady_timer lock_timeout_timer;
+     std::shared_ptr<int64_t> lock_timeout_count = std::make_shared<int64_t>(0);
      boost::asio::awaitable<void> lock();
      void unlock();
      void refresh_lock_timeout();
-- 
2.43.0


From 42533bca34465ef478326c39f7de3393ceb5e96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:46 +0000
Subject: [PATCH 10/28] fix: compare the right bytes when pread of the
 destination returns less than asked

---
 src/joedb/journal/Abstract_File.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/Abstract_File.cpp b/src/joedb/journal/Abstract_File.cpp
index e28bb21..7f601e7 100644
--- a/src/joedb/journal/Abstract_File.cpp
+++ b/src/joedb/journal/Abstract_File.cpp
@@ -71,7 +71,7 @@ namespace joedb
     (
      destination_buffer.data() + n1,
      n0 - n1,
-     current
+     current + int64_t(n1)
     );
 
     if (n == 0)
-- 
2.43.0


From c553dee2693b71892c951621af891dfdb26b6bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:46 +0000
Subject: [PATCH 11/28] fix: do not read the tail of a Server_File from the
 server

---
 src/joedb/concurrency/Server_File.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/joedb/concurrency/Server_File.cpp b/src/joedb/concurrency/Server_File.cpp
index a5f56f9..c596d82 100644
--- a/src/joedb/concurrency/Server_File.cpp
+++ b/src/joedb/concurrency/Server_File.cpp
@@ -108,7 +108,13 @@ namespace joedb
    return head.pread(data, size, offset);
 
   if (offset < tail_offset)
+  {
+   // the server may have more, that is not what was written to the tail
+   const int64_t body_size = tail_offset - offset;
+   if (int64_t(size) > body_size)
+    size = size_t(body_size);
    return Robust_Connection::pread(data, size, offset);
+  }
 
   return tail.pread(data, size, offset - tail_offset);
  }
-- 
2.43.0


From 82ca43158cc59897097557941c429f3a35b635ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:05 +0000
Subject: [PATCH 12/28] fix: forget the encoding context when skipping
 operations of a journal

---
 src/joedb/journal/Readonly_Journal.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/joedb/journal/Readonly_Journal.h b/src/joedb/journal/Readonly_Journal.h
index 28cb8b9..5765fc8 100644
--- a/src/joedb/journal/Readonly_Journal.h
+++ b/src/joedb/journal/Readonly_Journal.h
@@ -115,6 +115,8 @@ namespace joedb
    }
    void skip_directly_to(int64_t position)
    {
+    if (position != get_position())
+     reset_context(); // what was skipped may have changed the context
     file_buffer.set_position(position);
    }
    bool equal_to(Readonly_Journal &journal, int64_t from, int64_t until) const
-- 
2.43.0


From 23947401c6b12cf26e00fca96338b2d0e94ed0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:17 +0000
Subject: [PATCH 13/28] fix: a record inserted in the place of a deleted one
 does not inherit its values

---
 src/joedb/interpreted/Field.h   | 13 +++++++++++++
 src/joedb/interpreted/Table.cpp |  5 +++++
 2 files changed, 18 insertions(+)

diff --git a/src/joedb/interpreted/Field.h b/src/joedb/interpreted/Field.h
index 16022e5..4d9398d 100644
--- a/src/joedb/interpreted/Field.h
+++ b/src/joedb/interpreted/Field.h
@@ -57,6 +57,19 @@ namespace joedb
     }
    }
 
+   void clear(Record_Id record_id, size_t size)
+   {
+    switch (type.get_type_id())
+    {
+     case Type::Type_Id::null: break;
+     #define TYPE_MACRO(cpp_type, return_type, type_id, R, W)\
+     case Type::Type_Id::type_id:\
+      std::fill_n(get_own_##type_id##_storage(record_id), size, cpp_type());\
+     break;
+     #include "joedb/TYPE_MACRO.h"
+    }
+   }
+
    #define TYPE_MACRO(cpp_type, return_type, type_id, R, W)\
    return_type get_##type_id(Record_Id record_id) const\
    {\
diff --git a/src/joedb/interpreted/Table.cpp b/src/joedb/interpreted/Table.cpp
index b3eab9d..0e9a4d7 100644
--- a/src/joedb/interpreted/Table.cpp
+++ b/src/joedb/interpreted/Table.cpp
@@ -61,6 +61,8 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   JOEDB_RELEASE_ASSERT(freedom.is_used(record_id));
+  for (auto &field: fields)
+   field.second.clear(record_id, 1);
   freedom.free(record_id);
  }
 
@@ -88,6 +90,9 @@ namespace joedb
  ////////////////////////////////////////////////////////////////////////////
  {
   JOEDB_RELEASE_ASSERT(freedom.is_used_vector(record_id, size));
+  if (size > 0)
+   for (auto &field: fields)
+    field.second.clear(record_id, size);
   freedom.free_vector(record_id, size);
  }
 }
-- 
2.43.0


From ca9cb7f4cdd615a041bf41f6a626dfd592b9499e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:29 +0000
Subject: [PATCH 14/28] fix: end of the free list of a dense freedom keeper

---
 src/joedb/Freedom_Keeper.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/joedb/Freedom_Keeper.h b/src/joedb/Freedom_Keeper.h
index dff068a..43a222a 100644
--- a/src/joedb/Freedom_Keeper.h
+++ b/src/joedb/Freedom_Keeper.h
@@ -279,15 +279,13 @@ namespace joedb
       return free_size - 1;
     }
 
-    const Record_Id result = index - 1;
+    if (index == used_size)
+     return free_list;
 
-    if (result == Record_Id{-1})
+    if (index == Record_Id{0})
      return used_list;
 
-    if (result == used_size - 1)
-     return free_list;
-
-    return result;
+    return index - 1;
    }
 
    bool is_used(Record_Id index) const
-- 
2.43.0


From 586ad9d5340397bee634c6af0f30b5a0e3f91736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:28 +0000
Subject: [PATCH 15/28] fix: updating a vector checks all its records

---
 src/joedb/interpreted/Table.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/joedb/interpreted/Table.h b/src/joedb/interpreted/Table.h
index 65e27ec..d4e799b 100644
--- a/src/joedb/interpreted/Table.h
+++ b/src/joedb/interpreted/Table.h
@@ -77,8 +77,10 @@ namespace joedb
                                 const type *value)\
    {\
     const auto it = find_field_from_id(field_id);\
-    check_record_id(record_id);\
-    check_record_id(record_id + index_t(size) - 1);\
+    if (size == 0)\
+     return;\
+    if (!freedom.is_used_vector(record_id, size))\
+     throw Exception("update: invalid record_id");\
     it->second.set_vector_##type_id(record_id, size, value);\
    }\
    type *get_own_##type_id##_storage(Record_Id record_id, Field_Id field_id)\
-- 
2.43.0


From 352ae5d99ae73568b31c6e49cff99ebe78a409ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:28 +0000
Subject: [PATCH 16/28] fix: generated databases check identifiers before they
 change anything

---
 src/joedb/compiler/generator/Writable_Database_h.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/joedb/compiler/generator/Writable_Database_h.cpp b/src/joedb/compiler/generator/Writable_Database_h.cpp
index 598a5c5..815f573 100644
--- a/src/joedb/compiler/generator/Writable_Database_h.cpp
+++ b/src/joedb/compiler/generator/Writable_Database_h.cpp
@@ -190,6 +190,7 @@ namespace joedb::generator
 
    out << "   void insert_" << tname << "(id_of_" << tname << " id)\n";
    out << "   {\n";
+   out << "    JOEDB_RELEASE_ASSERT(id.is_not_null() && !is_valid_record_id_for_" << tname << "(id.get_record_id()));\n";
    out << "    if (id.get_record_id() >= Record_Id(storage_of_" << tname << ".size()))\n";
    out << "     storage_of_" << tname << ".resize(id.get_id() + 1);\n";
    out << "    internal_insert_" << tname << "(id.get_record_id());\n";
@@ -266,6 +267,7 @@ namespace joedb::generator
 
     out << "   void delete_vector_of_" << tname << "(id_of_" << tname << " v, size_t size)\n";
     out << "   {\n";
+    out << "    JOEDB_RELEASE_ASSERT(storage_of_" << tname << ".freedom_keeper.is_used_vector(v.get_record_id(), size));\n";
     out << "    for (size_t i = size; i > 0;)\n";
     out << "     internal_delete_" << tname << "(v[--i].get_record_id());\n";
     out << "    journal.delete_vector(Table_Id(" << tid << "), v.get_record_id(), size);\n";
@@ -320,6 +322,7 @@ namespace joedb::generator
      out << "   template<typename F> void update_vector_of_" << fname;
      out << "(id_of_" << tname << " record, size_t size, F f)\n";
      out << "   {\n";
+     out << "    JOEDB_RELEASE_ASSERT(storage_of_" << tname << ".freedom_keeper.is_used_vector(record.get_record_id(), size));\n";
      out << "    joedb::Span<";
      write_type(out, type, false, false);
      out << "> span(&storage_of_" << tname;
-- 
2.43.0


From 54010167a77eeeb893363d07c2719d74dbf46a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:09 +0000
Subject: [PATCH 17/28] fix: a blob written to a multiplexer is the one of a
 destination that has it

---
 src/joedb/Multiplexer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/joedb/Multiplexer.cpp b/src/joedb/Multiplexer.cpp
index 3d5e4a5..336a3e8 100644
--- a/src/joedb/Multiplexer.cpp
+++ b/src/joedb/Multiplexer.cpp
@@ -276,7 +276,13 @@ namespace joedb
   for (auto w: writables)
   {
    if (w.get().wants_blob_data())
-    result = w.get().write_blob(data);
+   {
+    const Blob blob = w.get().write_blob(data);
+
+    // Some writables, such as text, have no place to read the blob from
+    if (!blob.is_null())
+     result = blob;
+   }
   }
 
   return result;
-- 
2.43.0


From f02db9c3eb6515bbee328916b83c75d61fd21ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:09 +0000
Subject: [PATCH 18/28] fix: packing in place must sync the packed file before
 replacing the original

---
 src/joedb/ui/inplace_pack.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/ui/inplace_pack.cpp b/src/joedb/ui/inplace_pack.cpp
index 1b6ce49..ff4cf51 100644
--- a/src/joedb/ui/inplace_pack.cpp
+++ b/src/joedb/ui/inplace_pack.cpp
@@ -17,6 +17,7 @@ namespace joedb
    Readonly_Journal input_journal(input_file);
    Writable_Journal output_journal(output_file);
    pack(input_journal, output_journal);
+   output_journal.hard_checkpoint();
   }
 
   const std::string unpacked = file_name + ".unpacked";
-- 
2.43.0


From 202126969f889087362b8876f7cb383e05a3d4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:09 +0000
Subject: [PATCH 19/28] fix: merging a dense table must not bring back its
 deleted records

---
 src/joedb/ui/merge.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/joedb/ui/merge.cpp b/src/joedb/ui/merge.cpp
index e0dff58..cf9b8a2 100644
--- a/src/joedb/ui/merge.cpp
+++ b/src/joedb/ui/merge.cpp
@@ -18,9 +18,13 @@ void joedb::merge(Database &merged, const Database &db)
  //
  for (const auto &[tid, tname]: merged.get_tables())
  {
-  const Record_Id size = db.get_size(tid);
   const Freedom_Keeper &freedom_keeper = db.get_freedom(tid);
 
+  // A dense table may have free records at its end: they must not be copied
+  const Record_Id size = freedom_keeper.is_dense()
+   ? freedom_keeper.get_used_count()
+   : freedom_keeper.get_size();
+
   if (size == Record_Id{0})
   {
    // do nothing, table is empty
-- 
2.43.0


From d29c10bb800ece023a008465732580434d5ac634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:09 +0000
Subject: [PATCH 20/28] fix: joedb_convert without --until copied nothing

---
 src/joedb/ui/process_journal_pair.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/joedb/ui/process_journal_pair.cpp b/src/joedb/ui/process_journal_pair.cpp
index 376ba52..013ec9a 100644
--- a/src/joedb/ui/process_journal_pair.cpp
+++ b/src/joedb/ui/process_journal_pair.cpp
@@ -2,6 +2,7 @@
 #include "joedb/journal/File.h"
 
 #include <iostream>
+#include <limits>
 
 namespace joedb
 {
@@ -18,7 +19,7 @@ namespace joedb
   (
    "until",
    "checkpoint",
-   0
+   std::numeric_limits<int64_t>::max()
   );
   const beman::cstring_view input = arguments.get_next("input.joedb");
   const beman::cstring_view output = arguments.get_next("output.joedb");
-- 
2.43.0


From 1fec9ff4eb4b9cb5976dc39301b695f5a7686a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:09 +0000
Subject: [PATCH 21/28] fix: read infinity and nan from text

---
 src/joedb/ui/type_io.cpp | 24 ++++++++++++++++++++++++
 src/joedb/ui/type_io.h   |  9 +++++++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/joedb/ui/type_io.cpp b/src/joedb/ui/type_io.cpp
index a409973..ee83aab 100644
--- a/src/joedb/ui/type_io.cpp
+++ b/src/joedb/ui/type_io.cpp
@@ -1,6 +1,7 @@
 #include "joedb/ui/type_io.h"
 #include "external/wide_char_display_width.h"
 
+#include <cstdlib>
 #include <iostream>
 #include <string>
 
@@ -211,6 +212,29 @@ namespace joedb
   return int8_t(result);
  }
 
+ /////////////////////////////////////////////////////////////////////////////
+ template<typename T> static T read_float
+ /////////////////////////////////////////////////////////////////////////////
+ (
+  std::istream &in,
+  T (*convert)(const char *, char **)
+ )
+ {
+  std::string word;
+  in >> word;
+
+  char *end;
+  const T value = convert(word.c_str(), &end);
+
+  if (end == word.c_str() || *end)
+   in.setstate(std::ios::failbit);
+
+  return value;
+ }
+
+ float read_float32(std::istream &in) {return read_float(in, std::strtof);}
+ double read_float64(std::istream &in) {return read_float(in, std::strtod);}
+
  /////////////////////////////////////////////////////////////////////////////
  bool read_boolean(std::istream &in)
  /////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/ui/type_io.h b/src/joedb/ui/type_io.h
index 70bf671..adf1990 100644
--- a/src/joedb/ui/type_io.h
+++ b/src/joedb/ui/type_io.h
@@ -34,6 +34,10 @@ namespace joedb
  int8_t read_int8(std::istream &in);
  void write_int8(std::ostream &out, int8_t value);
 
+ /// Infinity and nan are read, which operator>> does not do
+ float read_float32(std::istream &in);
+ double read_float64(std::istream &in);
+
  bool read_boolean(std::istream &in);
  void write_boolean(std::ostream &out, bool value);
 
@@ -75,12 +79,13 @@ namespace joedb
  PRIMITIVE_IO(int32_t, int32)
  PRIMITIVE_IO(int64_t, int64)
  PRIMITIVE_IO(Record_Id, reference)
- PRIMITIVE_IO(float, float32)
- PRIMITIVE_IO(double, float64)
  PRIMITIVE_IO(int16_t, int16)
 
  #undef PRIMITIVE_IO
 
+ inline void write_float32(std::ostream &out, float value) {out << value;}
+ inline void write_float64(std::ostream &out, double value) {out << value;}
+
  /// @}
 }
 
-- 
2.43.0


From 8f4e881fee59b0b9a6e62fc58979cbd007e59674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:41 +0000
Subject: [PATCH 22/28] fix: packing an empty database in place must sync the
 packed file too

---
 src/joedb/ui/inplace_pack.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joedb/ui/inplace_pack.cpp b/src/joedb/ui/inplace_pack.cpp
index ff4cf51..d1f89bc 100644
--- a/src/joedb/ui/inplace_pack.cpp
+++ b/src/joedb/ui/inplace_pack.cpp
@@ -18,6 +18,7 @@ namespace joedb
    Writable_Journal output_journal(output_file);
    pack(input_journal, output_journal);
    output_journal.hard_checkpoint();
+   output_file.sync(); // even if there was nothing to checkpoint
   }
 
   const std::string unpacked = file_name + ".unpacked";
-- 
2.43.0


From 736e26b42d9c29788eb99da5a564736f5232609d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:40 +0000
Subject: [PATCH 23/28] fix: initial values of fields of generated databases
 lost digits and bytes

Floating-point values were written into the generated code with 6 digits,
and strings as C strings, so that an upgrade set fields to rounded or
truncated values.
---
 .../compiler/generator/Writable_Database_cpp.cpp      | 11 +++++++++++
 src/joedb/compiler/generator/introspection_h.cpp      |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/src/joedb/compiler/generator/Writable_Database_cpp.cpp b/src/joedb/compiler/generator/Writable_Database_cpp.cpp
index 420018d..8ef62e8 100644
--- a/src/joedb/compiler/generator/Writable_Database_cpp.cpp
+++ b/src/joedb/compiler/generator/Writable_Database_cpp.cpp
@@ -3,6 +3,8 @@
 #include "joedb/ui/type_io.h"
 #include "joedb/ui/write_value.h"
 
+#include <limits>
+
 namespace joedb::generator
 {
  ////////////////////////////////////////////////////////////////////////////
@@ -219,6 +221,10 @@ namespace joedb::generator
 
       const auto &type = db.get_field_type(tid, fid);
       const bool reference = type.get_type_id() == joedb::Type::Type_Id::reference;
+      const bool string = type.get_type_id() == joedb::Type::Type_Id::string;
+
+      if (string)
+       out << "std::string(";
 
       if (reference)
       {
@@ -228,11 +234,16 @@ namespace joedb::generator
        out << "(";
       }
 
+      const auto precision = out.precision(std::numeric_limits<double>::max_digits10);
       joedb::write_value(out, db, tid, record_id, fid);
+      out.precision(precision);
 
       if (reference)
        out << ")";
 
+      if (string)
+       out << ", " << db.get_string(tid, record_id, fid).size() << ")";
+
       out <<");\n";
       out << "    }\n";
      }
diff --git a/src/joedb/compiler/generator/introspection_h.cpp b/src/joedb/compiler/generator/introspection_h.cpp
index 7ce0ef8..1f7161b 100644
--- a/src/joedb/compiler/generator/introspection_h.cpp
+++ b/src/joedb/compiler/generator/introspection_h.cpp
@@ -2,6 +2,8 @@
 #include "joedb/compiler/nested_namespace.h"
 #include "joedb/ui/write_value.h"
 
+#include <limits>
+
 namespace joedb::generator
 {
  ////////////////////////////////////////////////////////////////////////////
@@ -56,7 +58,9 @@ namespace joedb::generator
    {
     out << ", ";
     const Record_Id record_id{db.get_freedom(tid).get_first_used()};
+    const auto precision = out.precision(std::numeric_limits<double>::max_digits10);
     write_value(out, db, tid, record_id, fid);
+    out.precision(precision);
    }
    out << ");\n";
   }
-- 
2.43.0


From 6f1a7ec7828c7ed7af2cc789c9018b33442bfc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:17 +0000
Subject: [PATCH 24/28] fix: a stream file must seek when it changes between
 reading and writing

---
 src/joedb/journal/Stream_File.cpp | 20 +++++++++++++++-----
 src/joedb/journal/Stream_File.h   |  3 ++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/joedb/journal/Stream_File.cpp b/src/joedb/journal/Stream_File.cpp
index d3c55a5..3212f5a 100644
--- a/src/joedb/journal/Stream_File.cpp
+++ b/src/joedb/journal/Stream_File.cpp
@@ -12,7 +12,8 @@ namespace joedb
  ):
   Abstract_File(mode),
   streambuf(streambuf),
-  pos(0)
+  pos(0),
+  direction(std::ios_base::in)
  {
   streambuf.pubseekoff
   (
@@ -32,17 +33,26 @@ namespace joedb
    std::ios_base::end,
    std::ios_base::in
   );
+  direction = std::ios_base::in;
 
   return pos;
  }
 
  /////////////////////////////////////////////////////////////////////////////
- void Stream_File::seek(int64_t offset) const
+ void Stream_File::seek
  /////////////////////////////////////////////////////////////////////////////
+ (
+  int64_t offset,
+  std::ios_base::openmode new_direction
+ ) const
  {
-  if (int64_t(pos) == offset)
+  // seek when changing direction: a streambuf may have distinct positions for
+  // reading and writing
+  if (int64_t(pos) == offset && direction == new_direction)
    return;
 
+  direction = new_direction;
+
   if (offset >= 0)
   {
    pos = streambuf.pubseekoff(offset, std::ios_base::beg);
@@ -57,7 +67,7 @@ namespace joedb
  size_t Stream_File::pread(char *data, size_t size, int64_t offset) const
  /////////////////////////////////////////////////////////////////////////////
  {
-  seek(offset);
+  seek(offset, std::ios_base::in);
   const std::streamsize n = streambuf.sgetn(data, std::streamsize(size));
   pos += n;
   return size_t(n);
@@ -67,7 +77,7 @@ namespace joedb
  void Stream_File::pwrite(const char *data, size_t size, int64_t offset)
  /////////////////////////////////////////////////////////////////////////////
  {
-  seek(offset);
+  seek(offset, std::ios_base::out);
 
   size_t written = 0;
 
diff --git a/src/joedb/journal/Stream_File.h b/src/joedb/journal/Stream_File.h
index bfa7b8a..cfc932c 100644
--- a/src/joedb/journal/Stream_File.h
+++ b/src/joedb/journal/Stream_File.h
@@ -13,7 +13,8 @@ namespace joedb
   private:
    std::streambuf &streambuf;
    mutable std::streambuf::pos_type pos;
-   void seek(int64_t offset) const;
+   mutable std::ios_base::openmode direction;
+   void seek(int64_t offset, std::ios_base::openmode new_direction) const;
 
   public:
    static constexpr bool lockable = false;
-- 
2.43.0


From ef8c69d020681585cda5b3208cea3009651cf983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:17 +0000
Subject: [PATCH 25/28] fix: reading past the end of an encoded file

---
 src/joedb/journal/Readonly_Encoded_File.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/joedb/journal/Readonly_Encoded_File.cpp b/src/joedb/journal/Readonly_Encoded_File.cpp
index 1846b22..653ec64 100644
--- a/src/joedb/journal/Readonly_Encoded_File.cpp
+++ b/src/joedb/journal/Readonly_Encoded_File.cpp
@@ -1,5 +1,8 @@
 #include "joedb/journal/Readonly_Encoded_File.h"
 
+#include <algorithm>
+#include <cstring>
+
 namespace joedb
 {
  //////////////////////////////////////////////////////////////////////////
@@ -12,9 +15,17 @@ namespace joedb
  ) const
  {
   const int64_t start = offset;
-  const int64_t end = offset + int64_t(size);
+  const int64_t end = std::min
+  (
+   offset + int64_t(size),
+   Readonly_Encoded_File::get_size()
+  );
+
+  if (end <= start)
+   return 0;
 
-  int64_t global_end = 0;
+  // what was never written is zero
+  std::memset(buffer, 0, size_t(end - start));
 
   for (auto b: db.get_buffer_table())
   {
@@ -27,9 +38,6 @@ namespace joedb
 
    if (intersection_size > 0)
    {
-    if (intersection_end > global_end)
-     global_end = intersection_end;
-
     if (b != decoded_buffer)
     {
      if (int64_t(read_buffer.size()) < db.get_size(b))
@@ -54,7 +62,7 @@ namespace joedb
    }
   }
 
-  return size_t(global_end - offset);
+  return size_t(end - start);
  }
 
  //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From ba1de2c982dc0ae0bed4e1d549200f571a902e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:17 +0000
Subject: [PATCH 26/28] fix: putting a byte 255 back to a filebuf looked like a
 failure

---
 src/joedb/journal/filebuf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/joedb/journal/filebuf.cpp b/src/joedb/journal/filebuf.cpp
index c764e69..d2b8fe9 100644
--- a/src/joedb/journal/filebuf.cpp
+++ b/src/joedb/journal/filebuf.cpp
@@ -205,7 +205,7 @@ namespace joedb
      file.pwrite(gptr(), 1, in_pos + gptr() - eback());
     }
    }
-   return *gptr();
+   return traits_type::to_int_type(*gptr());
   }
 
   return traits_type::eof();
-- 
2.43.0


From 881a795c850d8465c29610eaed1440cbf766b32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:17 +0000
Subject: [PATCH 27/28] fix: pings must start after the handshake

The keep-alive thread was started before the channel of the client was
constructed, and could ping before the handshake.
---
 src/joedb/concurrency/Keep_Alive_Thread.h | 7 ++++++-
 src/joedb/concurrency/Server_Client.cpp   | 5 +++--
 src/joedb/concurrency/Server_Client.h     | 4 +++-
 src/joedb/rpc/Client.h                    | 1 +
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/joedb/concurrency/Keep_Alive_Thread.h b/src/joedb/concurrency/Keep_Alive_Thread.h
index f7db6e2..25e0128 100644
--- a/src/joedb/concurrency/Keep_Alive_Thread.h
+++ b/src/joedb/concurrency/Keep_Alive_Thread.h
@@ -65,11 +65,16 @@ namespace joedb
     interval(interval),
     thread_must_stop(false),
     stopped(true)
+   {
+   }
+
+   /// To be called once, when the client is ready to ping
+   void start()
    {
     if (interval.count() > 0)
     {
-     stopped = false;
      thread = std::thread([this](){keep_alive();});
+     stopped = false;
     }
    }
 
diff --git a/src/joedb/concurrency/Server_Client.cpp b/src/joedb/concurrency/Server_Client.cpp
index 4c36c8e..272fa6e 100644
--- a/src/joedb/concurrency/Server_Client.cpp
+++ b/src/joedb/concurrency/Server_Client.cpp
@@ -114,13 +114,14 @@ namespace joedb
   Logger &logger,
   std::chrono::milliseconds keep_alive_interval
  ):
-  keep_alive(*this, keep_alive_interval),
   channel(channel),
   logger(logger),
   session_id(-1),
-  pullonly_server(false)
+  pullonly_server(false),
+  keep_alive(*this, keep_alive_interval)
  {
   connect();
+  keep_alive.start();
  }
 
  ////////////////////////////////////////////////////////////////////////////
diff --git a/src/joedb/concurrency/Server_Client.h b/src/joedb/concurrency/Server_Client.h
index 6024cab..1889a50 100644
--- a/src/joedb/concurrency/Server_Client.h
+++ b/src/joedb/concurrency/Server_Client.h
@@ -19,7 +19,6 @@ namespace joedb
 
   private:
    void locked_ping(Lock<Channel&> &lock) override;
-   Keep_Alive_Thread keep_alive;
 
    void connect();
    void disconnect();
@@ -44,6 +43,9 @@ namespace joedb
 
    void log(beman::cstring_view message) noexcept override;
 
+  private:
+   Keep_Alive_Thread keep_alive;
+
   public:
    ///
    /// @param keep_alive_interval: a background thread will send a ping
diff --git a/src/joedb/rpc/Client.h b/src/joedb/rpc/Client.h
index 8834e75..a0853bb 100644
--- a/src/joedb/rpc/Client.h
+++ b/src/joedb/rpc/Client.h
@@ -60,6 +60,7 @@ namespace joedb::rpc
     keep_alive(*this, keep_alive_interval)
    {
     handshake();
+    keep_alive.start();
    }
 
    void call(int64_t procedure_id, Memory_File &file)
-- 
2.43.0


From 8d92c3cadba2273289bb039837a767140c7d29df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:38 +0000
Subject: [PATCH 28/28] fix: an interrupted reply must not remain in the
 message of the caller

The bytes of an incomplete reply were left after the checkpoint, and a
message that was sent again carried them.
---
 src/joedb/rpc/Client.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/joedb/rpc/Client.h b/src/joedb/rpc/Client.h
index a0853bb..5b0e4b9 100644
--- a/src/joedb/rpc/Client.h
+++ b/src/joedb/rpc/Client.h
@@ -93,7 +93,17 @@ namespace joedb::rpc
      const size_t from = file.get_data().size();
      const int64_t until = buffer.read<int64_t>();
      file.get_data().resize(size_t(until));
-     lock->read(file.get_data().data() + from, size_t(until) - from);
+
+     try
+     {
+      lock->read(file.get_data().data() + from, size_t(until) - from);
+     }
+     catch (...)
+     {
+      file.get_data().resize(from); // forget an incomplete reply
+      throw;
+     }
+
      file.pwrite((const char *)&until, 8, 0);
      file.pwrite((const char *)&until, 8, 8);
     }
-- 
2.43.0

