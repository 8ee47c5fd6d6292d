From 98154c5df08c0ebd26f11f786fa0da213409b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:25 +0000
Subject: [PATCH 01/33] fix: never accept truncated values at the end of the
 data stream

Connection.read() returned whatever was left when the stream ended, so a
connection lost inside the payload of a packet produced a shortened file,
output or path instead of an error.
---
 src/fora/connectors/tunnel_dispatcher.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index b35d694..ed69d84 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -167,8 +167,11 @@ class Connection:
         self.buffer_out.flush()
 
     def read(self, count: int) -> bytes:
-        """Reads exactly the given amount of bytes."""
-        return self.buffer_in.read(count)
+        """Reads exactly the given amount of bytes. Raises an IOError if the stream ends before that."""
+        data = self.buffer_in.read(count)
+        if len(data) != count:
+            raise IOError("Unexpected EOF in data stream")
+        return data
 
     def write(self, data: bytes, count: int) -> None:
         """Writes exactly the given amount of bytes from data."""
-- 
2.43.0


From c843b8c2519a5170c06db1cd52f700020e812939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:25 +0000
Subject: [PATCH 02/33] fix: serialize packets completely before sending them

A field that could not be serialized left half a packet on the stream, and
every following request was misinterpreted by the remote.
---
 src/fora/connectors/tunnel_dispatcher.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index ed69d84..431bb50 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -9,6 +9,7 @@ needed remote system related utilities.
 
 import errno as sys_errno
 import hashlib
+import io
 import os
 import stat
 import struct
@@ -265,10 +266,17 @@ def _read_packet(cls: Type[Any], conn: Connection) -> Any:
     return cls(**kwargs)
 
 def _write_packet(cls: Type[Any], packet_id: u32, this: object, conn: Connection) -> None:
-    _serialize(conn, u32, packet_id)
+    # Serialize the whole packet before sending anything, so that a value which
+    # cannot be serialized doesn't leave an incomplete packet on the connection.
+    buffer = io.BytesIO()
+    buffer_conn = Connection(conn.buffer_in, buffer)
+    _serialize(buffer_conn, u32, packet_id)
     for f in cls._fields:
         ftype = cls.__annotations__[f]
-        _serialize(conn, ftype, getattr(this, f))
+        _serialize(buffer_conn, ftype, getattr(this, f))
+
+    data = buffer.getvalue()
+    conn.write(data, len(data))
     conn.flush()
 
 def Packet(type: str) -> Callable[[Type[Any]], Any]: # pylint: disable=redefined-builtin
-- 
2.43.0


From 6d463c2df32ebc9cd11291591c37039930d6a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:25 +0000
Subject: [PATCH 03/33] fix: transfer strings that are not valid utf-8

File names, arguments, environment variables and account fields may contain
arbitrary bytes (surrogate escapes). They couldn't be sent, and an error while
decoding an answer was mistaken for 'does not exist'.
---
 src/fora/connectors/tunnel_dispatcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 431bb50..9658e3f 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -204,7 +204,7 @@ _serializers[u32]   = lambda conn, v: conn.write(pack(">I", v), 4)
 _serializers[i64]   = lambda conn, v: conn.write(pack(">q", v), 8)
 _serializers[u64]   = lambda conn, v: conn.write(pack(">Q", v), 8)
 _serializers[bytes] = lambda conn, v: (_serializers[u64](conn, len(v)), conn.write(v, len(v))) # type: ignore[func-returns-value]
-_serializers[str]   = lambda conn, v: _serializers[bytes](conn, v.encode('utf-8'))
+_serializers[str]   = lambda conn, v: _serializers[bytes](conn, v.encode('utf-8', errors='surrogateescape'))
 
 def _serialize(conn: Connection, vtype: Type[Any], v: Any) -> None:
     """Serializes v based on the underlying type 'vtype' and writes it to the given connection."""
@@ -230,7 +230,7 @@ _deserializers[u32]   = lambda conn: unpack(">I", conn.read(4))[0]
 _deserializers[i64]   = lambda conn: unpack(">q", conn.read(8))[0]
 _deserializers[u64]   = lambda conn: unpack(">Q", conn.read(8))[0]
 _deserializers[bytes] = lambda conn: conn.read(_deserializers[u64](conn))
-_deserializers[str]   = lambda conn: _deserializers[bytes](conn).decode('utf-8')
+_deserializers[str]   = lambda conn: _deserializers[bytes](conn).decode('utf-8', errors='surrogateescape')
 
 def _deserialize(conn: Connection, vtype: Type[Any]) -> Any:
     """Deserializes an object from the given connection based on the underlying type 'vtype' and returns it."""
-- 
2.43.0


From d74cc9beb46284abd3d10a5c386858c9ab96a6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:25 +0000
Subject: [PATCH 04/33] fix: report unusable requests instead of losing the
 connection

Any exception other than an OSError (null bytes in paths, empty command lines,
out-of-range ids) terminated the dispatcher. An OSError without errno or
strerror did the same.
---
 src/fora/connectors/tunnel_dispatcher.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 9658e3f..a49045a 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -806,7 +806,11 @@ def _main() -> None:
         try:
             packet.handle(conn)
         except OSError as e:
-            conn.write_packet(PacketOSError(errno=i64(e.errno), strerror=e.strerror, msg=str(e)))
+            conn.write_packet(PacketOSError(errno=i64(e.errno or 0), strerror=e.strerror or str(e), msg=str(e)))
+        except Exception as e: # pylint: disable=broad-except
+            # The request contained something that cannot be used (e.g. a path with an embedded null byte).
+            # Report this to the client instead of aborting and losing the connection.
+            conn.write_packet(PacketOSError(errno=i64(sys_errno.EINVAL), strerror=os.strerror(sys_errno.EINVAL), msg=f"{type(e).__name__}: {e}"))
 
 if __name__ == '__main__':
     _main()
-- 
2.43.0


From c1314ea22d97a3cb250e8a8a90ef9dd5175b8764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:25 +0000
Subject: [PATCH 05/33] fix: transfer timestamps before 1970

Negative timestamps could not be packed as unsigned integers.
---
 src/fora/connectors/tunnel_dispatcher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index a49045a..fb2da30 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -440,8 +440,8 @@ class PacketStatResult(NamedTuple):
     owner: str
     group: str
     size: u64
-    mtime: u64
-    ctime: u64
+    mtime: i64
+    ctime: i64
     sha512sum: Optional[bytes]
 
 @Packet(type='request')
@@ -494,8 +494,8 @@ class PacketStat(NamedTuple):
             owner=owner,
             group=group,
             size=u64(s.st_size),
-            mtime=u64(s.st_mtime_ns),
-            ctime=u64(s.st_ctime_ns),
+            mtime=i64(s.st_mtime_ns),
+            ctime=i64(s.st_ctime_ns),
             sha512sum=sha512sum))
 
 @Packet(type='response')
-- 
2.43.0


From 37304b6e5af1fe44704634bfd8d42fe58863ecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:25 +0000
Subject: [PATCH 06/33] fix: keep remote commands away from the protocol
 streams

Commands without explicit input inherited the dispatcher's stdin and could
consume queued requests; commands whose output isn't captured wrote directly
into the response stream. Printing the error of such a command failed, too.
---
 src/fora/connectors/tunnel_dispatcher.py | 3 +++
 src/fora/utils.py                        | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index fb2da30..b1c7e64 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -419,8 +419,11 @@ class PacketProcessRun(NamedTuple):
 
         # Execute command with desired parameters
         try:
+            # Never let the command inherit our stdin or stdout, as these are used to communicate with the client.
             result = subprocess.run(self.command,
                 input=self.stdin,
+                stdin=subprocess.DEVNULL if self.stdin is None else None,
+                stdout=None if self.capture_output else sys.stderr,
                 capture_output=self.capture_output,
                 cwd=self.cwd,
                 preexec_fn=child_preexec,
diff --git a/src/fora/utils.py b/src/fora/utils.py
index 7fb407f..3149746 100644
--- a/src/fora/utils.py
+++ b/src/fora/utils.py
@@ -340,7 +340,7 @@ def print_process_error(err: subprocess.CalledProcessError) -> None:
         col_red, "failed", col_reset, " ",
         f"with code {err.returncode} ]"], file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stdout", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print(err.stdout.decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print((err.stdout or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stderr", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print(err.stderr.decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print((err.stderr or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "end", col_reset, col_darker, " ", col_reset], file=sys.stderr)
-- 
2.43.0


From d9cfb4f163ad6b96925c9838866ab25ed07f7020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:58 +0000
Subject: [PATCH 07/33] fix: always reap the connection process and keep the
 original error

Closing a lost connection raised a BrokenPipeError which replaced the error
that ended the deploy, and left the process and its streams behind. Closing
while the remote was still sending an answer waited forever, and a failed open
never reaped the process.
---
 src/fora/connectors/tunnel_connector.py | 38 ++++++++++++++++++-------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/fora/connectors/tunnel_connector.py b/src/fora/connectors/tunnel_connector.py
index 68407c1..c6ea971 100644
--- a/src/fora/connectors/tunnel_connector.py
+++ b/src/fora/connectors/tunnel_connector.py
@@ -66,21 +66,37 @@ class TunnelConnector(Connector):
             # If the connection failed for any reason, be sure to kill the background process.
             if not self.is_open:
                 self.process.terminate()
-                self.process = None
+                self._end_process()
 
         logger.connection_established()
 
     def close(self) -> None:
-        if self.is_open:
-            self.conn.write_packet(td.PacketExit())
-
-        if self.process is not None:
-            if self.process.stdin is not None:
-                self.process.stdin.close()
-            self.process.wait()
-            if self.process.stdout is not None:
-                self.process.stdout.close()
-            self.process = None
+        try:
+            if self.is_open:
+                self.conn.write_packet(td.PacketExit())
+        except IOError:
+            # The connection was already lost, so there is nobody left to be notified.
+            pass
+        finally:
+            self.is_open = False
+            self._end_process()
+
+    def _end_process(self) -> None:
+        """Closes both streams to the subprocess (if any), and waits for it to exit."""
+        process, self.process = self.process, None
+        if process is None:
+            return
+
+        # Both streams need to be closed before waiting, otherwise a process
+        # that is still trying to send an answer would never exit.
+        for stream in (process.stdin, process.stdout):
+            try:
+                if stream is not None:
+                    stream.close()
+            except IOError:
+                # Unsent data cannot be flushed when the connection was lost.
+                pass
+        process.wait()
 
     def _request(self, packet: Any) -> Any:
         """Sends the request packet and returns the response.
-- 
2.43.0


From 88fa56df126f95cf40e60580d87f7e75c229993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:58 +0000
Subject: [PATCH 08/33] fix: close the connection if resolving the remote
 identity fails

---
 src/fora/connection.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fora/connection.py b/src/fora/connection.py
index ec98372..fd2dc99 100644
--- a/src/fora/connection.py
+++ b/src/fora/connection.py
@@ -30,8 +30,14 @@ class Connection:
 
     def __enter__(self) -> Connection:
         self.connector.open()
-        self.host.connection = self
-        self._resolve_identity()
+        try:
+            self.host.connection = self
+            self._resolve_identity()
+        except BaseException:
+            # __exit__ will not be called if we fail to enter the context.
+            self.host.connection = cast(Connection, None)
+            self.connector.close()
+            raise
         return self
 
     def __exit__(self, exc_type: Optional[Type[BaseException]], exc: Optional[BaseException], traceback: Optional[TracebackType]) -> None:
-- 
2.43.0


From 8885027af06e94c7a6b04b2938136f65ae89e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:26 +0000
Subject: [PATCH 09/33] fix: never mistake the answer to an interrupted request
 for another one

If a request was interrupted (Ctrl-C) and cleanup code in the script used the
connection again, it received the outstanding answer of the first request.
---
 src/fora/connectors/tunnel_connector.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/fora/connectors/tunnel_connector.py b/src/fora/connectors/tunnel_connector.py
index c6ea971..be71fd0 100644
--- a/src/fora/connectors/tunnel_connector.py
+++ b/src/fora/connectors/tunnel_connector.py
@@ -33,6 +33,7 @@ class TunnelConnector(Connector):
         self.process: Optional[subprocess.Popen] = None
         self.conn: td.Connection
         self.is_open: bool = False
+        self.is_interrupted: bool = False
 
     def command(self) -> list[str]:
         """Returns the command that should be executed to open a tunnel dispatcher to the destination."""
@@ -72,7 +73,7 @@ class TunnelConnector(Connector):
 
     def close(self) -> None:
         try:
-            if self.is_open:
+            if self.is_open and not self.is_interrupted:
                 self.conn.write_packet(td.PacketExit())
         except IOError:
             # The connection was already lost, so there is nobody left to be notified.
@@ -101,8 +102,16 @@ class TunnelConnector(Connector):
     def _request(self, packet: Any) -> Any:
         """Sends the request packet and returns the response.
         Propagates exceptions from raised from td.receive_packet."""
-        self.conn.write_packet(packet)
-        return td.receive_packet(self.conn, request=packet)
+        if self.is_interrupted:
+            raise IOError("The connection was interrupted while waiting for the response to a previous request.")
+
+        try:
+            self.conn.write_packet(packet)
+            return td.receive_packet(self.conn, request=packet)
+        except (KeyboardInterrupt, IOError):
+            # The response is still outstanding, and must never be mistaken for the response to another request.
+            self.is_interrupted = True
+            raise
 
     def run(self,
             command: list[str],
-- 
2.43.0


From 5e66b65064ba716bdc761b6fee4381d845c10ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:26 +0000
Subject: [PATCH 10/33] fix: match and remove lines by the same rule and keep
 all others intact

Lines could be detected but never removed (surrounding whitespace in the given
line, regexes spanning lines), and all other lines were rewritten: CRLF and
other line endings were lost, and a file was never emptied.
---
 src/fora/operations/files.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 59659c8..d534dc7 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -654,6 +654,12 @@ def line(path: str,
     check_absolute_path(path, f"{path=}")
     op.desc(path)
 
+    def matches(other: str) -> bool:
+        """Returns True if the given existing line is the line in question."""
+        if regex is not None:
+            return re.search(regex, other) is not None
+        return line.strip() == other.strip() if ignore_whitespace else line == other
+
     conn = fora.host.connection
     with op.defaults() as attr:
         op.final_state(line_present=present)
@@ -673,13 +679,7 @@ def line(path: str,
             orig_content = orig_bytes.decode("utf-8", errors="surrogateescape")
 
             # Check whether the line is already contained
-            if regex is None:
-                if ignore_whitespace:
-                    line_present = line.strip() in [l.strip() for l in (orig_content or "").splitlines()]
-                else:
-                    line_present = line in (orig_content or "").splitlines()
-            else:
-                line_present = bool(re.search(regex, orig_content, re.MULTILINE))
+            line_present = any(matches(l) for l in orig_content.splitlines())
 
         op.initial_state(line_present=line_present)
 
@@ -687,21 +687,16 @@ def line(path: str,
         if op.unchanged():
             return op.success()
 
-        lines = (orig_content or "").splitlines()
+        # All other lines must be kept exactly as they are, including their line endings.
+        new_content = orig_content or ""
         if present:
-            lines.append(line)
+            if new_content and not new_content.endswith("\n"):
+                new_content += "\n"
+            new_content += line + "\n"
         else:
             # Remove matching lines
-            if regex is None:
-                if ignore_whitespace:
-                    lines = list(filter(lambda l: line != l.strip(), lines))
-                else:
-                    lines = list(filter(lambda l: line != l, lines))
-            else:
-                # mypy false positive here, ignore type warning
-                lines = list(filter(lambda l: not re.search(regex, l), lines)) # type: ignore[type-var]
-
-        new_content = "\n".join(lines) + "\n"
+            lines = zip(new_content.splitlines(), new_content.splitlines(keepends=True))
+            new_content = "".join(full_line for l, full_line in lines if not matches(l))
         new_bytes = new_content.encode("utf-8", errors="surrogateescape")
 
         # Add diff if desired
-- 
2.43.0


From 29ab1b695c8b141be0c831a2d52fbeda90b6c1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:26 +0000
Subject: [PATCH 11/33] fix: append the backup suffix to the original filename

As documented. Previously all backups in a directory were named just '.{date}.bak'
and backups of different files could overwrite each other.
---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index d534dc7..6513aea 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -710,7 +710,7 @@ def line(path: str,
             else:
                 if backup:
                     if isinstance(backup, bool):
-                        backup = f".{datetime.now(timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')}.bak"
+                        backup = f"{os.path.basename(path)}.{datetime.now(timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')}.bak"
                     conn.run(["cp", "-a", "--", path, os.path.join(os.path.dirname(path), backup)])
                 conn.upload(file=path, content=new_bytes)
 
-- 
2.43.0


From e1d0489c28996ff3605e1f5c8df79fdb2e6aa67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:26 +0000
Subject: [PATCH 12/33] fix: replace links to directories and keep the owner of
 changed links

'ln -sf' follows an existing link to a directory and creates the new link
inside of it. The replaced link also belonged to the executing user.
---
 src/fora/operations/files.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 6513aea..0b14555 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -302,10 +302,10 @@ def link(path: str,
             if present:
                 # Create link if it doesn't exist
                 if op.changed("target"):
-                    conn.run(["ln", "-sf", "--", target, path])
+                    conn.run(["ln", "-sfn", "--", target, path])
 
-                # Set correct owner and group, if needed
-                if op.changed("owner") or op.changed("group"):
+                # Set correct owner and group, if needed. Changing the target will have created a new link.
+                if op.changed("target") or op.changed("owner") or op.changed("group"):
                     conn.run(["chown", "--no-dereference", f"{attr.owner}:{attr.group}", "--", path])
 
                 # Touch link if requested
-- 
2.43.0


From 4e2e375e3494d07f426d763cb2ac21f5affa26af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:25 +0000
Subject: [PATCH 13/33] fix: change the owner of files before their mode

chown clears set-id bits, so the declared mode was silently lost. Doing it the
other way around also granted the set-id bits under the wrong owner at first.
---
 src/fora/connectors/tunnel_dispatcher.py |  5 +++--
 src/fora/operations/files.py             | 16 ++++++++--------
 src/fora/operations/utils.py             |  8 ++++----
 3 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index b1c7e64..0d2d743 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -595,10 +595,11 @@ class PacketUpload(NamedTuple):
 
         with open(self.file, 'wb') as f:
             f.write(self.content)
-        if mode_oct is not None:
-            os.chmod(self.file, mode_oct)
+        # Changing the owner clears set-id bits, so this must be done before changing the mode.
         if uid is not None or gid is not None:
             os.chown(self.file, uid or 0, gid or 0)
+        if mode_oct is not None:
+            os.chmod(self.file, mode_oct)
 
         conn.write_packet(PacketOk())
 
diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 0b14555..4d5eafa 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -125,14 +125,14 @@ def directory(path: str,
                 if op.changed("exists"):
                     conn.run(["mkdir", "--", path])
 
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.dir_mode, "--", path])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", path])
 
+                # Set correct mode, if needed
+                if op.changed("mode"):
+                    conn.run(["chmod", attr.dir_mode, "--", path])
+
                 # Touch directory if requested
                 if not op.changed("exists") and op.changed("touched"):
                     conn.run(["touch", "--", path])
@@ -215,13 +215,13 @@ def file(path: str,
                 if op.changed("exists") or op.changed("touched"):
                     conn.run(["touch", "--", path])
 
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.file_mode, "--", path])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", path])
+
+                # Set correct mode, if needed. Changing the owner will have cleared set-id bits.
+                if op.changed("mode") or op.changed("owner") or op.changed("group"):
+                    conn.run(["chmod", attr.file_mode, "--", path])
             else:
                 # Remove file if it should not be present
                 if op.changed("exists"):
diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index 3bceae8..b1ff764 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -168,14 +168,14 @@ def save_content(op: Operation,
                         owner=attr.owner,
                         group=attr.group)
             else:
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.file_mode, "--", dest])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", dest])
 
+                # Set correct mode, if needed. Changing the owner will have cleared set-id bits.
+                if op.changed("mode") or op.changed("owner") or op.changed("group"):
+                    conn.run(["chmod", attr.file_mode, "--", dest])
+
         return op.success()
 
 def check_absolute_path(path: str, path_desc: str) -> None:
-- 
2.43.0


From 1014c92768d7bcaf6bfd078405d98dd9763f9d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:25 +0000
Subject: [PATCH 14/33] fix: clear undeclared set-id bits of directories

A directory created in a set-group-id parent inherits the bit, and chmod keeps
it when given a short numeric mode. The directory never reached the declared mode.
---
 src/fora/operations/files.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 4d5eafa..c2490cb 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -129,9 +129,10 @@ def directory(path: str,
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", path])
 
-                # Set correct mode, if needed
+                # Set correct mode, if needed. For directories, chmod only clears set-id bits
+                # (e.g. inherited from the parent directory) if the mode has at least five digits.
                 if op.changed("mode"):
-                    conn.run(["chmod", attr.dir_mode, "--", path])
+                    conn.run(["chmod", attr.dir_mode.zfill(5), "--", path])
 
                 # Touch directory if requested
                 if not op.changed("exists") and op.changed("touched"):
-- 
2.43.0


From 29f606264e2e5e0648e007058cec44b6f5fb46b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:25 +0000
Subject: [PATCH 15/33] fix: fail if a source directory cannot be listed

os.walk ignores errors by default, so upload_dir silently skipped subdirectories.
---
 src/fora/operations/files.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index c2490cb..5dc5309 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -477,7 +477,9 @@ def upload_dir(src: str,
         # together with their source counterpart
         dirs: list[str] = [dest]
         files: list[tuple[str, str]] = []
-        for root, subdirs, subfiles in os.walk(src):
+        def raise_error(error: OSError) -> None:
+            raise error
+        for root, subdirs, subfiles in os.walk(src, onerror=raise_error):
             root = relpath(root, start=src)
             sroot = normpath(join(src, root))
             droot = normpath(join(dest, root))
-- 
2.43.0


From bddf45435661d6f45d6a9877d717f0aa20176fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:25 +0000
Subject: [PATCH 16/33] fix: return a failed result for operation errors if
 check=False

As documented for all operations.
---
 src/fora/operations/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index ed55cce..2118137 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -261,6 +261,8 @@ def operation(op_name: str): # type: ignore[no-untyped-def]
                 ret = function(*args, **kwargs, op=op)
             except OperationError as e:
                 ret = op.failure(str(e))
+                if not check:
+                    return ret
                 # If we are not in debug mode, we modify the traceback such that the exception
                 # seems to originate at the calling site where the operation is called.
                 if fora.args.debug:
-- 
2.43.0


From 14e68a74893d48c612c50a5785900e91f73536f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:31 +0000
Subject: [PATCH 17/33] fix: don't report a change if a service is already in
 the desired state

Leaving state or enabled unspecified was always counted as a change, because
the key instead of the value was compared against None.
---
 src/fora/operations/api.py     | 2 +-
 src/fora/operations/systemd.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index 2118137..059304c 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -137,7 +137,7 @@ class Operation:
         if not ignore_none:
             return self.initial_state_dict == self.final_state_dict
 
-        keys_not_none = (k for k in self.final_state_dict if k is not None)
+        keys_not_none = (k for k,v in self.final_state_dict.items() if v is not None)
         for k in keys_not_none:
             if self.initial_state_dict[k] != self.final_state_dict[k]:
                 return False
diff --git a/src/fora/operations/systemd.py b/src/fora/operations/systemd.py
index 1afbcf7..fb277ab 100644
--- a/src/fora/operations/systemd.py
+++ b/src/fora/operations/systemd.py
@@ -100,10 +100,10 @@ def service(service: str, # pylint: disable=redefined-outer-name
     cur_enabled = (systemd_unit_file_state or b"").decode('utf-8', errors='ignore').strip() == "enabled"
 
     op.initial_state(state=cur_state, enabled=cur_enabled)
-    op.final_state(state=state, enabled=enabled)
+    op.final_state(state=cur_state if state is None else state, enabled=cur_enabled if enabled is None else enabled)
 
     # Return success if nothing needs to be changed
-    if op.unchanged(ignore_none=True):
+    if op.unchanged():
         return op.success()
 
     # Apply actions to reach desired state, but only if we are not doing a dry run
-- 
2.43.0


From c3a44401f1116a6333ac5b2a33078ce14c6dbce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:31 +0000
Subject: [PATCH 18/33] fix: query the user's service manager in user_mode

The state of the system's unit was compared instead.
---
 src/fora/operations/systemd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/systemd.py b/src/fora/operations/systemd.py
index fb277ab..2d4066b 100644
--- a/src/fora/operations/systemd.py
+++ b/src/fora/operations/systemd.py
@@ -90,13 +90,14 @@ def service(service: str, # pylint: disable=redefined-outer-name
         raise ValueError(f"Invalid target state '{state}'")
 
     # Examine current state
-    systemd_active_state = conn.run(["systemctl", "show", "--value", "--property", "ActiveState", "--", service]).stdout
+    base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
+    systemd_active_state = conn.run(base_command + ["show", "--value", "--property", "ActiveState", "--", service]).stdout
     if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating"]:
         cur_state = "started"
     else:
         cur_state = "stopped"
 
-    systemd_unit_file_state = conn.run(["systemctl", "show", "--value", "--property", "UnitFileState", "--", service]).stdout
+    systemd_unit_file_state = conn.run(base_command + ["show", "--value", "--property", "UnitFileState", "--", service]).stdout
     cur_enabled = (systemd_unit_file_state or b"").decode('utf-8', errors='ignore').strip() == "enabled"
 
     op.initial_state(state=cur_state, enabled=cur_enabled)
@@ -108,7 +109,6 @@ def service(service: str, # pylint: disable=redefined-outer-name
 
     # Apply actions to reach desired state, but only if we are not doing a dry run
     if not fora.args.dry:
-        base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
         if op.changed("state") and state is not None:
             conn.run(base_command + [state_actions[state], "--", service])
 
-- 
2.43.0


From 1eebd0454d5be45bdc04055bac16c8bb9e113622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:31 +0000
Subject: [PATCH 19/33] fix: apply empty group lists, empty comments and the id
 0 to accounts

Explicitly given falsy values were treated as if they weren't given.
---
 src/fora/operations/system.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index 1766e20..4de4f39 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -121,15 +121,15 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
         op.initial_state(exists=True, uid=current.uid, group=current.group, groups=sorted(current.groups), comment=current.gecos, home=current.home, shell=current.shell, password_hash=current.password_hash)
 
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
-    target_uid = uid or (current.uid if current else None)
+    target_uid = uid if uid is not None else (current.uid if current else None)
     target_group = group or (current.group if current else None)
     if append_groups:
         target_groups = set((groups or []) + (current.groups if current else []))
     else:
-        target_groups = groups or (current.groups if current else [])
+        target_groups = set(groups if groups is not None else (current.groups if current else []))
     target_groups = sorted(list(target_groups))
     target_password_hash = password_hash or (current.password_hash if current else None)
-    target_comment = comment or (current.gecos if current else None)
+    target_comment = comment if comment is not None else (current.gecos if current else None)
     target_home = home or (current.home if current else '/dev/null')
     target_shell = shell or (current.shell if current else '/sbin/nologin')
 
@@ -192,7 +192,7 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
             if op.changed("group") and target_group is not None:
                 conn.run(["usermod", "--gid", target_group, "--", user])
 
-            if op.changed("groups") and len(target_groups) > 0:
+            if op.changed("groups"):
                 # Empty param for --groups is OK and does the expected thing.
                 conn.run(["usermod", "--groups", ','.join(target_groups), "--", user])
 
@@ -261,7 +261,7 @@ def group(group: str, # pylint: disable=redefined-outer-name,too-many-statements
         op.initial_state(exists=True, gid=current.gid)
 
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
-    target_gid = gid or (current.gid if current else None)
+    target_gid = gid if gid is not None else (current.gid if current else None)
 
     if present:
         op.final_state(exists=True, gid=target_gid)
-- 
2.43.0


From 3179477e40091c181c3ea653343dc4addf66727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:31 +0000
Subject: [PATCH 20/33] fix: recognize that a primary group given by gid is
 already set

The gid was compared against the group's name, so the user was modified on
every run.
---
 src/fora/operations/system.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index 4de4f39..1e1d584 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -123,6 +123,10 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
     target_uid = uid if uid is not None else (current.uid if current else None)
     target_group = group or (current.group if current else None)
+    if group:
+        # The group may be given as a gid, but the current state is always a name.
+        group_entry = conn.query_group(group=group)
+        target_group = group_entry.name if group_entry is not None else group
     if append_groups:
         target_groups = set((groups or []) + (current.groups if current else []))
     else:
-- 
2.43.0


From 8d28a062189f2018fa486b450341f38b4704f2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:31 +0000
Subject: [PATCH 21/33] fix: ignore duplicate packages

A duplicate in the list of packages was reported as a change on every run.
---
 src/fora/operations/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index b1ff764..afb1524 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -87,7 +87,7 @@ def generic_package(op: Operation,
 
     # Set initial and target state.
     op.initial_state(installed=sorted(list(installed)))
-    op.final_state(installed=sorted(list(packages)) if present else [])
+    op.final_state(installed=sorted(list(set(packages))) if present else [])
 
     # Return success if nothing needs to be changed
     if op.unchanged():
-- 
2.43.0


From 8a8e999a168bc09dc276f3f0fe4a7f35e6eb45b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:31 +0000
Subject: [PATCH 22/33] fix: make apt packages usable

The command to query packages was misspelled and fails for unknown packages,
and apt-get aborts when it cannot ask for confirmation.
---
 src/fora/operations/apt.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/apt.py b/src/fora/operations/apt.py
index 3bdb985..8619d75 100644
--- a/src/fora/operations/apt.py
+++ b/src/fora/operations/apt.py
@@ -1,5 +1,6 @@
 """Provides operations related to the apt package manager."""
 
+import subprocess
 from functools import partial
 from typing import Optional
 import fora
@@ -9,18 +10,22 @@ from fora.operations.utils import generic_package, package_manager
 def _is_installed(package: str, opts: Optional[list[str]] = None) -> bool: # pylint: disable=redefined-outer-name
     """Checks whether a package is installed with dpkg-query on the remote host."""
     opts = opts or []
-    ret = fora.host.connection.run(["dpgk-query", "--show", "--showformat=${Status}"] + opts + ["--", package])
+    command = ["dpkg-query", "--show", "--showformat=${Status}"] + opts + ["--", package]
+    ret = fora.host.connection.run(command, check=False)
+    # An exit code of 1 means that the package is unknown
+    if ret.returncode not in [0, 1]:
+        raise subprocess.CalledProcessError(ret.returncode, command, ret.stdout, ret.stderr)
     return ret.stdout is not None and b"ok installed" in ret.stdout
 
 def _install(package: str, opts: Optional[list[str]] = None) -> None: # pylint: disable=redefined-outer-name
     """Installs a package with apt-get on the remote host."""
     opts = opts or []
-    fora.host.connection.run(["apt-get", "install"] + opts + ["--", package])
+    fora.host.connection.run(["apt-get", "install", "--yes"] + opts + ["--", package])
 
 def _uninstall(package: str, opts: Optional[list[str]] = None) -> None: # pylint: disable=redefined-outer-name
     """Uninstalls a package with apt-get on the remote host."""
     opts = opts or []
-    fora.host.connection.run(["apt-get", "remove"] + opts + ["--", package])
+    fora.host.connection.run(["apt-get", "remove", "--yes"] + opts + ["--", package])
 
 @package_manager(command="apt-get")
 @operation("package")
-- 
2.43.0


From 6020d810bebfbdd38137035fb9987c60093dfb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:31 +0000
Subject: [PATCH 23/33] fix: don't mistake a killed pacman for a package that
 isn't installed

Removing a package reported success in that case.
---
 src/fora/operations/pacman.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fora/operations/pacman.py b/src/fora/operations/pacman.py
index acd4b69..e59139a 100644
--- a/src/fora/operations/pacman.py
+++ b/src/fora/operations/pacman.py
@@ -1,5 +1,6 @@
 """Provides operations related to the pacman package manager."""
 
+import subprocess
 from functools import partial
 from typing import Optional
 import fora
@@ -9,7 +10,12 @@ from fora.operations.utils import generic_package, package_manager
 def _is_installed(package: str, opts: Optional[list[str]] = None) -> bool: # pylint: disable=redefined-outer-name
     """Checks whether a package is installed with pacman on the remote host."""
     opts = opts or []
-    return fora.host.connection.run(["pacman", "-Ql"] + opts + ["--", package], check=False).returncode == 0
+    command = ["pacman", "-Ql"] + opts + ["--", package]
+    ret = fora.host.connection.run(command, check=False)
+    # An exit code of 1 means that the package is not installed
+    if ret.returncode not in [0, 1]:
+        raise subprocess.CalledProcessError(ret.returncode, command, ret.stdout, ret.stderr)
+    return ret.returncode == 0
 
 def _install(package: str, opts: Optional[list[str]] = None) -> None: # pylint: disable=redefined-outer-name
     """Installs a package with pacman on the remote host."""
-- 
2.43.0


From d29ea283a24ad50f9d011914aa767c3d114d907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:31 +0000
Subject: [PATCH 24/33] fix: return a failed result if no package or service
 manager was found and check=False

---
 src/fora/operations/system.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index 1e1d584..a19816e 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -344,7 +344,10 @@ def package(packages: list[str],
     conn = fora.host.connection
     package_fn = find_command(conn, utils.package_managers)
     if package_fn is None:
-        raise new_op_fail(op_name="package", name=name, desc=str(packages), error=f"No supported package manager was found on the remote system. Searched commands: {utils.package_managers.keys()}")
+        error = new_op_fail(op_name="package", name=name, desc=str(packages), error=f"No supported package manager was found on the remote system. Searched commands: {utils.package_managers.keys()}")
+        if check:
+            raise error
+        return OperationResult(success=False, changed=False, initial={}, final={}, failure_message=str(error))
 
     return cast(OperationResult, package_fn(packages=packages, present=present, name=name, check=check))
 
@@ -396,6 +399,9 @@ def service(service: str, # pylint: disable=redefined-outer-name
     conn = fora.host.connection
     service_fn = find_command(conn, utils.service_managers)
     if service_fn is None:
-        raise new_op_fail(op_name="service", name=name, desc=str(service), error=f"No supported service manager was found on the remote system. Searched commands: {utils.service_managers.keys()}")
+        error = new_op_fail(op_name="service", name=name, desc=str(service), error=f"No supported service manager was found on the remote system. Searched commands: {utils.service_managers.keys()}")
+        if check:
+            raise error
+        return OperationResult(success=False, changed=False, initial={}, final={}, failure_message=str(error))
 
     return cast(OperationResult, service_fn(service=service, state=state, enabled=enabled, name=name, check=check))
-- 
2.43.0


From 97ca504a6ca129b2d94c6743f66dd3c1c4f3e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:31 +0000
Subject: [PATCH 25/33] fix: return the file instead of its directory in
 definition_file()

This disabled the detection of recursive script calls, as a script's file was
compared with the directory of the running scripts.
---
 src/fora/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/types.py b/src/fora/types.py
index 0c4483b..3a2d5f5 100644
--- a/src/fora/types.py
+++ b/src/fora/types.py
@@ -167,9 +167,9 @@ class ModuleWrapper:
         str
             The file.
         """
-        if self.module is None or getattr(self.module, "__path__", None) is None:
+        if self.module is None or getattr(self.module, "__file__", None) is None:
             return "<internal>"
-        return self.module.__path__
+        return cast(str, self.module.__file__)
 
 @dataclass
 class GroupWrapper(ModuleWrapper):
-- 
2.43.0


From 2c06d3e635c3fa5a4bfc522e59efe328316c32a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:31 +0000
Subject: [PATCH 26/33] fix: order an explicitly declared 'all' group after the
 host's variables

Otherwise it is not allowed to override variables given in the inventory.
---
 src/fora/inventory_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index c42b722..c6c941d 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -427,7 +427,7 @@ class InventoryWrapper(ModuleWrapper):
 
             # Deduplicate before and after
             decl.before = list(set(decl.before))
-            decl.after = list(set(decl.after) | set(["all"] if decl.name != "all" else []))
+            decl.after = list(set(decl.after) | set(["all"] if decl.name != "all" else ["early-explicits"]))
 
             self._group_decls[decl.name] = decl
 
-- 
2.43.0


From 9d12eee060ac569cafd5a1c44f217e5c06b3c0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:31 +0000
Subject: [PATCH 27/33] fix: record the first assignment of a variable as its
 definition

It was recorded as a modification, or not at all if the value was None, so
conflicts with unordered groups were not detected.
---
 src/fora/inventory_wrapper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index c6c941d..a741520 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -752,12 +752,12 @@ class InventoryWrapper(ModuleWrapper):
             # it was overwritten (or it was newly defined). We want to record this in our
             # definition history. We also compare against a snapshot of the value to detect
             # modification instead of redefinition.
-            previous_value = None if attr not in variable_action_history else variable_action_history[attr][-1].value
-            was_modified = previous_value != value
-            was_overwritten = hasattr(initializer, attr) and getattr(initializer, attr) is not value
+            is_new = attr not in variable_action_history
+            was_modified = not is_new and variable_action_history[attr][-1].value != value
+            was_overwritten = is_new or (hasattr(initializer, attr) and getattr(initializer, attr) is not value)
             cur_action: Literal["definition", "modification"] = "modification" if was_modified and not was_overwritten else "definition"
 
-            if initializer is None or was_overwritten or was_modified:
+            if was_overwritten or was_modified:
                 # If the variable was actually overwritten, we need to make sure that this module
                 # was allowed to overwrite it. Otherwise, we record that this is a variable
                 # conflict and raise an exception later, once we found all offending variables.
-- 
2.43.0


From 6a425badd9c3b804630fdf38a78603d71c153d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:31 +0000
Subject: [PATCH 28/33] fix: detect conflicting variables based on the actual
 group dependencies

The range of possible ranks is not sufficient: it overlaps for dependent groups
if longer dependency chains exist elsewhere, and doesn't overlap for some
unrelated groups, whose order is nevertheless arbitrary.
---
 src/fora/inventory_wrapper.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index a741520..1c8eb87 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -544,6 +544,17 @@ class InventoryWrapper(ModuleWrapper):
         group_names.sort(key=lambda g: self._group_ranks_min[g])
         self._topological_order = group_names
 
+    def _depends_on(self, group: str, other: str) -> bool:
+        """Returns True if the given group is (transitively) ordered after the other group."""
+        visited = set()
+        remaining = [group]
+        while remaining:
+            for after in self._group_decls[remaining.pop()].after:
+                if after not in visited:
+                    visited.add(after)
+                    remaining.append(after)
+        return other in visited
+
     def load(self) -> None:
         """
         This function preprocesses the declared hosts and groups, calculates
@@ -762,15 +773,11 @@ class InventoryWrapper(ModuleWrapper):
                 # was allowed to overwrite it. Otherwise, we record that this is a variable
                 # conflict and raise an exception later, once we found all offending variables.
                 if record_conflicts_group is not None and initializer is not None and attr in variable_action_history:
-                    # Determine if the ranks of this group and any previous defining module overlap
-                    # (which means they would share a common possible rank). If that is the case,
-                    # they don't have any dependency on each other and overwriting is forbidden
-                    # as their relative order is arbitrary. We already know that the current group
-                    # is ordered after the previous group, as we are iterating in topological order,
-                    # so a problem would only arise if the previous group's maximum possible rank
-                    # overlaps with our minimum required rank.
+                    # Determine whether this group has a (transitive) dependency on every previous
+                    # defining module. If that is not the case, overwriting is forbidden as their
+                    # relative order is arbitrary.
                     for prev in variable_action_history[attr]:
-                        if self._group_ranks_max[prev.actor.name] >= self._group_ranks_min[record_conflicts_group.name]:
+                        if not self._depends_on(record_conflicts_group.name, prev.actor.name):
                             if prev.action == "modification" and cur_action == "modification":
                                 # Ambiguous modification order is explicitly allowed.
                                 # While this could in theory also create ambiguities,
-- 
2.43.0


From 39d4cf82635407335edd212d9f0eec3a648cdbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:55 +0000
Subject: [PATCH 29/33] fix: respect --no-color and non-terminal output when
 printing diffs

The diff was always colored, even if color output was disabled.
Print it in color only when color output is enabled.
---
 src/fora/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/logger.py b/src/fora/logger.py
index f7357e7..d103e13 100644
--- a/src/fora/logger.py
+++ b/src/fora/logger.py
@@ -306,7 +306,7 @@ def print_operation(op: Any, result: Any) -> None:
         diff_lines = []
         # Generate diffs
         for file, old, new in op.diffs:
-            diff_lines.extend(diff(file, old, new))
+            diff_lines.extend(diff(file, old, new, color=use_color()))
         # Print diffs with block character line
         if len(diff_lines) > 0:
             for l in diff_lines[:-1]:
-- 
2.43.0


From 5cfa51491044c2eeabe3acac056efed4f199fd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:55 +0000
Subject: [PATCH 30/33] fix: provide the inventory to templates as inventory

The documentation promises the current inventory under this key, but it was the host.
---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 5dc5309..444bb95 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -49,7 +49,7 @@ def _render_template(templ: Template, context: Optional[dict]) -> bytes:
     if context is not None:
         dvars.update(context)
     dvars["host"] = fora.host
-    dvars["inventory"] = fora.host
+    dvars["inventory"] = fora.inventory
     return templ.render(dvars).encode("utf-8")
 
 @operation("dir")
-- 
2.43.0


From 17f9b850c73dc318ccc65ca12123e7147a0715ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:04 +0000
Subject: [PATCH 31/33] fix: portage.package: report the managed packages
 instead of the function object

---
 src/fora/operations/portage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/portage.py b/src/fora/operations/portage.py
index bc771f1..e433d38 100644
--- a/src/fora/operations/portage.py
+++ b/src/fora/operations/portage.py
@@ -56,7 +56,7 @@ def package(packages: list[str],
         The operation wrapper. Must not be supplied by the user.
     """
     _ = (name, check) # Processed automatically.
-    op.desc(str(package))
+    op.desc(str(packages))
 
     return generic_package(op, packages,
             present=present,
-- 
2.43.0


From 7fdba8cfbe1aa8f81ccb0f2bf335e37f15f91c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:04 +0000
Subject: [PATCH 32/33] fix: systemd.service: a unit that is reloading is
 running, so stopping it is not a no-op

---
 src/fora/operations/systemd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/systemd.py b/src/fora/operations/systemd.py
index 2d4066b..4943cf7 100644
--- a/src/fora/operations/systemd.py
+++ b/src/fora/operations/systemd.py
@@ -92,7 +92,7 @@ def service(service: str, # pylint: disable=redefined-outer-name
     # Examine current state
     base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
     systemd_active_state = conn.run(base_command + ["show", "--value", "--property", "ActiveState", "--", service]).stdout
-    if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating"]:
+    if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating", "reloading"]:
         cur_state = "started"
     else:
         cur_state = "stopped"
-- 
2.43.0


From 40ee54aa34aa0a7c9c82c9499cf4ff9dc3a898dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:46 +0000
Subject: [PATCH 33/33] fix: git.repo resolves the exact branch or tag and the
 commit of an annotated tag

ls-remote lists every ref that ends in the given name, so a branch was taken for
another one (feature/main for main), and an annotated tag for its tag object,
which never equals the checked out commit.
---
 src/fora/operations/git.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index f0135d0..fadff44 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -88,8 +88,18 @@ def repo(url: str,
         return op.success()
 
     # Check the newest available commit
-    remote_newest_commit = conn.run(["git", "ls-remote", "--exit-code", "--", url, branch_or_tag or "HEAD"])
-    newest_commit = (remote_newest_commit.stdout or b"").decode("utf-8", errors="backslashreplace").strip().split()[0]
+    ref = branch_or_tag or "HEAD"
+    remote_newest_commit = conn.run(["git", "ls-remote", "--exit-code", "--", url, ref, f"{ref}^{{}}"])
+    remote_output = (remote_newest_commit.stdout or b"").decode("utf-8", errors="backslashreplace")
+    # ls-remote also lists refs which only end in the given name (feature/main for main). Select the ref that git clone
+    # would use. An annotated tag stands for the commit it points to, which is listed with a trailing ^{}.
+    remote_refs = {name: commit for commit, name in (line.split("\t", 1) for line in remote_output.strip().splitlines())}
+    for ref_name in [ref, f"refs/heads/{ref}", f"refs/tags/{ref}^{{}}", f"refs/tags/{ref}"]:
+        if ref_name in remote_refs:
+            newest_commit = remote_refs[ref_name]
+            break
+    else:
+        return op.failure(f"no branch or tag named '{ref}' in remote repository '{url}'")
 
     op.final_state(initialized=True, commit=newest_commit)
 
-- 
2.43.0

