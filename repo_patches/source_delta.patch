From 224d2d80d6ac75e6d99a90cfe001095c78e7d66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 01/35] fix: cancel calls made through a proxy via the same
 proxy

---
 python/xoscar/backends/context.py | 37 ++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index 89582b1..c7f4a67 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -110,12 +110,20 @@ class IndigenActorContext(BaseActorContext):
         else:
             raise message.as_instanceof_cause()
 
-    async def _wait(self, future: asyncio.Future, address: str, message: _MessageBase):
+    async def _wait(
+        self,
+        future: asyncio.Future,
+        address: str,
+        message: _MessageBase,
+        proxy_addresses: list[str] | None = None,
+    ):
         try:
             await asyncio.shield(future)
         except asyncio.CancelledError:
             try:
-                await self.cancel(address, message.message_id)
+                await self.cancel(
+                    address, message.message_id, proxy_addresses=proxy_addresses
+                )
             except CannotCancelTask:
                 # cancel failed, already finished
                 raise asyncio.CancelledError
@@ -161,7 +169,9 @@ class IndigenActorContext(BaseActorContext):
             wait=False,
             proxy_addresses=actor_ref.proxy_addresses,
         )
-        result = await self._wait(future, actor_ref.address, message)  # type: ignore
+        result = await self._wait(
+            future, actor_ref.address, message, actor_ref.proxy_addresses  # type: ignore
+        )
         return self._process_result_message(result)
 
     async def destroy_actor(self, actor_ref: ActorRef):
@@ -174,7 +184,9 @@ class IndigenActorContext(BaseActorContext):
             wait=False,
             proxy_addresses=actor_ref.proxy_addresses,
         )
-        result = await self._wait(future, actor_ref.address, message)  # type: ignore
+        result = await self._wait(
+            future, actor_ref.address, message, actor_ref.proxy_addresses  # type: ignore
+        )
         return self._process_result_message(result)
 
     async def kill_actor(self, actor_ref: ActorRef, force: bool = True):
@@ -221,7 +233,9 @@ class IndigenActorContext(BaseActorContext):
             wait=False,
             proxy_addresses=actor_ref.proxy_addresses,
         )
-        result = await self._wait(future, actor_ref.address, message)
+        result = await self._wait(
+            future, actor_ref.address, message, actor_ref.proxy_addresses
+        )
         res = self._process_result_message(result)
         if res.address != connect_addr:
             res.address = fix_all_zero_ip(res.address, connect_addr)
@@ -258,16 +272,23 @@ class IndigenActorContext(BaseActorContext):
                 proxy_addresses=actor_ref.proxy_addresses,
             )
             if wait_response:
-                result = await self._wait(future, actor_ref.address, send_message)  # type: ignore
+                result = await self._wait(
+                    future, actor_ref.address, send_message, actor_ref.proxy_addresses  # type: ignore
+                )
                 return self._process_result_message(result)
             else:
                 return future
 
-    async def cancel(self, address: str, cancel_message_id: bytes):
+    async def cancel(
+        self,
+        address: str,
+        cancel_message_id: bytes,
+        proxy_addresses: list[str] | None = None,
+    ):
         message = CancelMessage(
             new_message_id(), address, cancel_message_id, protocol=DEFAULT_PROTOCOL
         )
-        result = await self._call(address, message)
+        result = await self._call(address, message, proxy_addresses=proxy_addresses)
         return self._process_result_message(result)  # type: ignore
 
     async def wait_actor_pool_recovered(
-- 
2.43.0


From 2a27729160bba97fae11b2d65a494469c244d7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 02/35] fix: pass the cancellation of a call forwarded by the
 main pool on to the sub pool

---
 python/xoscar/backends/pool.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index cb61054..ac999fb 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1148,7 +1148,20 @@ class MainActorPoolBase(ActorPoolBase):
             protocol=message.protocol,
             message_trace=message.message_trace,
         )
-        return await self.call(actor_ref.address, new_send_message)
+        try:
+            return await self.call(actor_ref.address, new_send_message)
+        except asyncio.CancelledError:
+            # the method runs in the sub pool, pass the cancellation on
+            await self.call(
+                actor_ref.address,
+                CancelMessage(
+                    new_message_id(),
+                    actor_ref.address,
+                    message.message_id,
+                    protocol=message.protocol,
+                ),
+            )
+            raise
 
     @implements(AbstractActorPool.tell)
     async def tell(self, message: TellMessage) -> ResultMessageType:
-- 
2.43.0


From ae2112b620962531d7d1996f13da27f27f568dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 03/35] fix: keep attributes and wrapper of errors of any
 exception type

---
 python/xoscar/utils.py | 42 ++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 40 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/utils.py b/python/xoscar/utils.py
index 3c2f6fb..2fe2ed8 100644
--- a/python/xoscar/utils.py
+++ b/python/xoscar/utils.py
@@ -31,7 +31,7 @@ import time
 import uuid
 from abc import ABC
 from functools import lru_cache
-from types import TracebackType
+from types import GetSetDescriptorType, MemberDescriptorType, TracebackType
 from typing import Callable, Type, Union
 
 from ._utils import (  # noqa: F401 # pylint: disable=unused-import
@@ -79,6 +79,28 @@ def parse_readable_size(value: str | int | float) -> tuple[float, bool]:
         raise ValueError(f"Unknown limitation value: {value}")
 
 
+def _delegate_to_wrapped(name: str) -> property:
+    def fget(self):
+        return getattr(self.__wrapped__, name)
+
+    def fset(self, value):
+        setattr(self.__wrapped__, name, value)
+
+    return property(fget, fset)
+
+
+def _new_wrapping_exception(
+    exc_type: Type[BaseException], traceback: TracebackType | None
+) -> BaseException:
+    # a customized __new__ may need other arguments than args
+    builtin_type = next(cls for cls in exc_type.__mro__ if cls.__module__ == "builtins")
+    try:
+        exc = builtin_type.__new__(exc_type, *exc_type.args)
+    except TypeError:
+        exc = builtin_type.__new__(exc_type)
+    return exc.with_traceback(traceback)
+
+
 def wrap_exception(
     exc: BaseException,
     bases: tuple[Type] | tuple | None = None,
@@ -98,6 +120,15 @@ def wrap_exception(
     def __str__(self):
         return message or super(type(self), self).__str__()
 
+    def __reduce__(self):
+        # the class of the wrapped exception may customize its pickling,
+        # which would lose the wrapper
+        return (
+            _new_wrapping_exception,
+            (type(self), self.__traceback__),
+            self.__dict__ or None,
+        )
+
     traceback = traceback or exc.__traceback__
     bases = bases or ()
     attr_dict = attr_dict or {}
@@ -106,6 +137,7 @@ def wrap_exception(
             "__init__": __init__,
             "__getattr__": __getattr__,
             "__str__": __str__,
+            "__reduce__": __reduce__,
             "__wrapname__": wrap_name,
             "__wrapped__": exc,
             "__module__": type(exc).__module__,
@@ -115,8 +147,14 @@ def wrap_exception(
             "args": exc.args,
         }
     )
+    for cls in type(exc).__mro__:
+        for name, value in cls.__dict__.items():
+            # attributes stored in slots, e.g. errno of OSError, never reach __getattr__
+            if isinstance(value, (MemberDescriptorType, GetSetDescriptorType)):
+                if name not in attr_dict and not name.startswith("__"):
+                    attr_dict[name] = _delegate_to_wrapped(name)
     new_exc_type = type(type(exc).__name__, bases + (type(exc),), attr_dict)
-    return new_exc_type().with_traceback(traceback)
+    return _new_wrapping_exception(new_exc_type, traceback)
 
 
 # from https://github.com/ericvsmith/dataclasses/blob/master/dataclass_tools.py
-- 
2.43.0


From c8fe250c549f83bdaba833f45f56b09989122a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:25 +0000
Subject: [PATCH 04/35] fix: allow exception and actor classes with a metaclass
 in messages

---
 python/xoscar/backends/message.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/xoscar/backends/message.pyx b/python/xoscar/backends/message.pyx
index 85b610a..b5957e6 100644
--- a/python/xoscar/backends/message.pyx
+++ b/python/xoscar/backends/message.pyx
@@ -215,7 +215,7 @@ cdef class ErrorMessage(_MessageBase):
     cdef:
         public str address
         public long pid
-        public type error_type
+        public object error_type
         public object error
         public object traceback
 
@@ -224,7 +224,7 @@ cdef class ErrorMessage(_MessageBase):
         bytes message_id = None,
         str address: str = None,
         long pid = -1,
-        type error_type: Type[BaseException] = None,
+        object error_type: Type[BaseException] = None,
         object error: BaseException = None,
         object traceback: TracebackType = None,
         int protocol = _DEFAULT_PROTOCOL,
@@ -280,7 +280,7 @@ cdef class CreateActorMessage(_MessageBase):
     message_type = MessageType.create_actor
 
     cdef:
-        public type actor_cls
+        public object actor_cls
         public bytes actor_id
         public tuple args
         public dict kwargs
@@ -290,7 +290,7 @@ cdef class CreateActorMessage(_MessageBase):
     def __init__(
         self,
         bytes message_id = None,
-        type actor_cls = None,
+        object actor_cls = None,
         bytes actor_id = None,
         tuple args = None,
         dict kwargs = None,
-- 
2.43.0


From 747bc96853ef4e3fd9ec03609fcd1e8d71d83ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 05/35] fix: fail only the call whose message cannot be
 deserialized

---
 python/xoscar/backends/pool.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index ac999fb..06a942b 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -61,6 +61,7 @@ from .message import (
     ControlMessage,
     ControlMessageType,
     CreateActorMessage,
+    DeserializeMessageFailed,
     DestroyActorMessage,
     ErrorMessage,
     ForwardMessage,
@@ -584,6 +585,16 @@ class AbstractActorPool(ABC):
                         # close failed, ignore
                         pass
                     return
+                except DeserializeMessageFailed as e:
+                    # only the call that sent this message fails,
+                    # others sharing the channel are not affected
+                    with _ErrorProcessor(
+                        self.external_address, e.message_id, DEFAULT_PROTOCOL
+                    ) as processor:
+                        raise e.__cause__ or e
+                    asyncio.create_task(self._send_channel(processor.result, channel))
+                    await asyncio.sleep(0)
+                    continue
                 if await self._handle_ucx_meta_message(message, channel):
                     continue
                 asyncio.create_task(self.process_message(message, channel))
-- 
2.43.0


From aa1f203b6948b455afc306dbc454d1f7f02ac386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 06/35] fix: do not set results of futures that are done
 already

---
 python/xoscar/backends/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index e3ca09d..ee86388 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -112,12 +112,14 @@ class ActorCallerThreadLocal:
                 except DeserializeMessageFailed as e:
                     message_id = e.message_id
                     future = self._client_to_message_futures[client].pop(message_id)
-                    future.set_exception(e.__cause__)  # type: ignore
+                    if not future.done():
+                        future.set_exception(e.__cause__)  # type: ignore
                 except Exception as e:  # noqa: E722  # pylint: disable=bare-except
                     message_futures = self._client_to_message_futures[client]
                     self._client_to_message_futures[client] = dict()
                     for future in message_futures.values():
-                        future.set_exception(copy.copy(e))
+                        if not future.done():
+                            future.set_exception(copy.copy(e))
                 finally:
                     # message may have Ray ObjectRef, delete it early in case next loop doesn't run
                     # as soon as expected.
@@ -135,7 +137,8 @@ class ActorCallerThreadLocal:
             self._client_to_message_futures[client] = dict()
             error = ServerClosed(f"Remote server {client.dest_address} closed")
             for future in message_futures.values():
-                future.set_exception(copy.copy(error))
+                if not future.done():
+                    future.set_exception(copy.copy(error))
         finally:
             try:
                 await client.close()
-- 
2.43.0


From f5ae6f187d60f1f52a8aa664c0cfd5b262d8f9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 07/35] fix: keep the NotImplementedError raised by an
 extensible method

---
 python/xoscar/batch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/xoscar/batch.py b/python/xoscar/batch.py
index 82f8c25..e75bfc4 100644
--- a/python/xoscar/batch.py
+++ b/python/xoscar/batch.py
@@ -97,6 +97,8 @@ class _ExtensibleCallable:
             if self.has_single_func:
                 return await self.func(*args, **kwargs)
         except NotImplementedError:
+            if self.batch_func is None:
+                raise
             self.has_single_func = False
 
         if self.batch_func is not None:
@@ -109,6 +111,8 @@ class _ExtensibleCallable:
             if self.has_single_func:
                 return self.func(*args, **kwargs)
         except NotImplementedError:
+            if self.batch_func is None:
+                raise
             self.has_single_func = False
 
         if self.batch_func is not None:
-- 
2.43.0


From 7e688509e022b036722f8ff2cca8a472d6355cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:26 +0000
Subject: [PATCH 08/35] fix: recognize exceptions that evaluate to false in
 wait_for

---
 python/xoscar/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index a290bb4..bfaf6b6 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -197,7 +197,7 @@ async def wait_for(fut: Awaitable[Any], timeout: int | float | None = None) -> A
             return
         if f.cancelled():
             new_fut.cancel()
-        elif f.exception():
+        elif f.exception() is not None:
             new_fut.set_exception(f.exception())  # type: ignore
         else:
             new_fut.set_result(f.result())
-- 
2.43.0


From eb166329074d0afda45158e20fd2e9cf99c277a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 09/35] fix: references to destroyed local actors and to actors
 defining uid

---
 python/xoscar/core.pxd |  1 +
 python/xoscar/core.pyx | 23 +++++++++++++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/core.pxd b/python/xoscar/core.pxd
index 3d6bae0..eed5e0e 100644
--- a/python/xoscar/core.pxd
+++ b/python/xoscar/core.pxd
@@ -25,6 +25,7 @@ cdef class ActorRef:
 cdef class LocalActorRef(ActorRef):
     cdef object _actor_weakref
     cdef _weakref_local_actor(self)
+    cdef _get_actor(self)
 
 
 cdef class BufferRef:
diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index 9ea1ee5..236819e 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -91,7 +91,7 @@ cpdef create_local_actor_ref(address, uid):
     """
     actor = _get_local_actor(address, uid)
     if actor is not None:
-        return LocalActorRef(actor)
+        return LocalActorRef(actor, address, uid)
     return None
 
 
@@ -106,7 +106,7 @@ cpdef create_actor_ref(address, uid, list proxy_addresses = None):
     """
     actor = _get_local_actor(address, uid)
     return ActorRef(address, uid, proxy_addresses=proxy_addresses) \
-        if actor is None else LocalActorRef(actor)
+        if actor is None else LocalActorRef(actor, address, uid)
 
 
 cdef class ActorRef:
@@ -243,9 +243,10 @@ cdef class ActorRefMethod:
 
 
 cdef class LocalActorRef(ActorRef):
-    def __init__(self, _BaseActor actor):
+    def __init__(self, _BaseActor actor, address, uid):
         # Make sure the input actor is an instance of _BaseActor.
-        super().__init__(actor._address, actor._uid)
+        # The actor class may define uid by itself, use that of the pool.
+        super().__init__(address, uid)
         self._actor_weakref = weakref.ref(actor, lambda _: self._methods.clear())
 
     cdef _weakref_local_actor(self):
@@ -256,11 +257,21 @@ cdef class LocalActorRef(ActorRef):
             return actor
         return None
 
+    cdef _get_actor(self):
+        actor = self._actor_weakref()
+        if actor is not None:
+            pool_ref = _local_pool_map.get(self.address)
+            pool = None if pool_ref is None else pool_ref()
+            if pool is None or pool._actors.get(self.uid) is actor:
+                return actor
+            # destroyed, the object is kept alive by others
+        return self._weakref_local_actor()
+
     def __getattr__(self, item):
         try:
             return self._methods[item]
         except KeyError:
-            actor = self._actor_weakref() or self._weakref_local_actor()
+            actor = self._get_actor()
             if actor is None:
                 raise ActorNotExist(f"Actor {self.uid} does not exist") from None
             # For detecting the attribute error.
@@ -306,7 +317,7 @@ cdef class LocalActorRefMethod:
         self._method_name = method_name
 
     cdef tuple _get_referent(self):
-        actor = self._local_actor_ref._actor_weakref() or self._local_actor_ref._weakref_local_actor()
+        actor = self._local_actor_ref._get_actor()
         if actor is None:
             raise ActorNotExist(f"Actor {self._local_actor_ref.uid} does not exist.")
         method = getattr(actor, self._method_name)
-- 
2.43.0


From 3381c4af4a27505290d494b67a26df3939398e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:38 +0000
Subject: [PATCH 10/35] fix: keep the actor registries of main and sub pools
 consistent

---
 python/xoscar/backends/indigen/pool.py |   6 +-
 python/xoscar/backends/message.pyx     |   1 +
 python/xoscar/backends/pool.py         | 147 ++++++++++++++++++-------
 3 files changed, 111 insertions(+), 43 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 9254bf6..91d6ceb 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -35,6 +35,7 @@ from typing import List, Optional
 import psutil
 
 from ..._utils import reset_id_random_seed
+from ...core import ActorRef
 from ...utils import ensure_coverage
 from ..config import ActorPoolConfig
 from ..message import (
@@ -501,7 +502,10 @@ class MainActorPool(MainActorPoolBase):
 
         if self._auto_recover == "actor":
             # need to recover all created actors
-            for _, message in self._allocated_actors[address].values():
+            for ref, (_, message) in list(self._allocated_actors[address].items()):
+                if not isinstance(ref, ActorRef):
+                    # placeholder of an actor that is being created
+                    continue
                 create_actor_message: CreateActorMessage = message  # type: ignore
                 await self.call(address, create_actor_message)
 
diff --git a/python/xoscar/backends/message.pyx b/python/xoscar/backends/message.pyx
index b5957e6..202aa97 100644
--- a/python/xoscar/backends/message.pyx
+++ b/python/xoscar/backends/message.pyx
@@ -59,6 +59,7 @@ class ControlMessageType(Enum):
     add_sub_pool_actor = 5
     # the new channel created is for data transfer only
     switch_to_copy_to = 6
+    remove_sub_pool_actor = 7
 
 
 cdef class _MessageSerialItem:
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 06a942b..7b638d5 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -634,7 +634,13 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
             actor.uid = actor_id
             actor.address = address = self.external_address
             self._actors[actor_id] = actor
-            await self._run_coro(message.message_id, actor.__post_create__())
+            try:
+                await self._run_coro(message.message_id, actor.__post_create__())
+            except BaseException:
+                # creation failed, the actor does not exist
+                if self._actors.get(actor_id) is actor:
+                    del self._actors[actor_id]
+                raise
 
             proxies = self._router.get_proxies(address)
             result = ActorRef(address, actor_id, proxy_addresses=proxies)
@@ -664,6 +670,9 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
             except KeyError:
                 raise ActorNotExist(f"Actor {actor_id} does not exist")
             await self._run_coro(message.message_id, actor.__pre_destroy__())
+            if self._actors.get(actor_id) is not actor:
+                # destroyed by others meanwhile
+                raise ActorNotExist(f"Actor {actor_id} does not exist")
             del self._actors[actor_id]
 
             processor.result = ResultMessage(
@@ -865,7 +874,7 @@ SubProcessHandle = asyncio.subprocess.Process
 
 
 class SubActorPoolBase(ActorPoolBase):
-    __slots__ = ("_main_address", "_watch_main_pool_task")
+    __slots__ = ("_main_address", "_watch_main_pool_task", "_create_message_ids")
     _watch_main_pool_task: Optional[asyncio.Task]
 
     def __init__(
@@ -892,6 +901,8 @@ class SubActorPoolBase(ActorPoolBase):
             servers,
         )
         self._main_address = main_address
+        # uid of actor to the id of message that created it
+        self._create_message_ids: dict[bytes, bytes] = dict()
         if main_pool_pid:
             self._watch_main_pool_task = asyncio.create_task(
                 self._watch_main_pool(main_pool_pid)
@@ -914,9 +925,15 @@ class SubActorPoolBase(ActorPoolBase):
             await self.stop()
 
     async def notify_main_pool_to_destroy(
-        self, message: DestroyActorMessage
+        self, message: DestroyActorMessage, create_message_id: bytes | None
     ):  # pragma: no cover
-        await self.call(self._main_address, message)
+        reg_message = ControlMessage(
+            new_message_id(),
+            self.external_address,
+            ControlMessageType.remove_sub_pool_actor,
+            (self.external_address, message.actor_ref.uid, create_message_id),
+        )
+        await self.call(self._main_address, reg_message)
 
     async def notify_main_pool_to_create(self, message: CreateActorMessage):
         reg_message = ControlMessage(
@@ -930,8 +947,10 @@ class SubActorPoolBase(ActorPoolBase):
     @implements(AbstractActorPool.create_actor)
     async def create_actor(self, message: CreateActorMessage) -> ResultMessageType:
         result = await super().create_actor(message)
-        if not message.from_main:
-            await self.notify_main_pool_to_create(message)
+        if isinstance(result, ResultMessage):
+            self._create_message_ids[message.actor_id] = message.message_id
+            if not message.from_main:
+                await self.notify_main_pool_to_create(message)
         return result
 
     @implements(AbstractActorPool.actor_ref)
@@ -951,9 +970,11 @@ class SubActorPoolBase(ActorPoolBase):
     @implements(AbstractActorPool.destroy_actor)
     async def destroy_actor(self, message: DestroyActorMessage) -> ResultMessageType:
         result = await super().destroy_actor(message)
-        if isinstance(result, ResultMessage) and not message.from_main:
+        if isinstance(result, ResultMessage):
             # sync back to main actor pool
-            await self.notify_main_pool_to_destroy(message)
+            await self.notify_main_pool_to_destroy(
+                message, self._create_message_ids.pop(message.actor_ref.uid, None)
+            )
         return result
 
     @implements(AbstractActorPool.handle_control_command)
@@ -1049,6 +1070,25 @@ class MainActorPoolBase(ActorPoolBase):
     def _sub_processes(self):
         return self.sub_processes
 
+    async def _call_sub_pool(
+        self, address: str, message: _MessageBase
+    ) -> ResultMessageType:
+        call = asyncio.create_task(self.call(address, message))
+        try:
+            return await asyncio.shield(call)
+        except asyncio.CancelledError:
+            # being processed in the sub pool, pass the cancellation on
+            await self.call(
+                address,
+                CancelMessage(
+                    new_message_id(),
+                    address,
+                    message.message_id,
+                    protocol=message.protocol,
+                ),
+            )
+            return await call
+
     @implements(AbstractActorPool.create_actor)
     async def create_actor(self, message: CreateActorMessage) -> ResultMessageType:
         with _ErrorProcessor(
@@ -1063,41 +1103,41 @@ class MainActorPoolBase(ActorPoolBase):
                     self._config, self._allocated_actors
                 )
                 # set placeholder to make sure this label is occupied
-                self._allocated_actors[address][None] = (allocate_strategy, message)
-            if address == self.external_address:
-                # creating actor on main actor pool
-                result = await super().create_actor(message)
-                if isinstance(result, ResultMessage):
-                    self._allocated_actors[self.external_address][result.result] = (
-                        allocate_strategy,
-                        message,
+                allocated = self._allocated_actors[address]
+                allocated[message.message_id] = (allocate_strategy, message)
+            try:
+                if address == self.external_address:
+                    # creating actor on main actor pool
+                    create_actor_message = message
+                    result = await super().create_actor(message)
+                else:
+                    # creating actor on sub actor pool
+                    # rewrite allocate strategy to AddressSpecified
+                    create_actor_message = CreateActorMessage(
+                        message.message_id,
+                        message.actor_cls,
+                        message.actor_id,
+                        message.args,
+                        message.kwargs,
+                        allocate_strategy=AddressSpecified(address),
+                        from_main=True,
+                        protocol=message.protocol,
+                        message_trace=message.message_trace,
                     )
-                processor.result = result
-            else:
-                # creating actor on sub actor pool
-                # rewrite allocate strategy to AddressSpecified
-                new_allocate_strategy = AddressSpecified(address)
-                new_create_actor_message = CreateActorMessage(
-                    message.message_id,
-                    message.actor_cls,
-                    message.actor_id,
-                    message.args,
-                    message.kwargs,
-                    allocate_strategy=new_allocate_strategy,
-                    from_main=True,
-                    protocol=message.protocol,
-                    message_trace=message.message_trace,
-                )
-                result = await self.call(address, new_create_actor_message)
-                if isinstance(result, ResultMessage):
-                    self._allocated_actors[address][result.result] = (
+                    result = await self._call_sub_pool(address, create_actor_message)
+                if (
+                    isinstance(result, ResultMessage)
+                    # otherwise destroyed already
+                    and message.message_id in allocated
+                ):
+                    allocated[result.result] = (
                         allocate_strategy,
-                        new_create_actor_message,
+                        create_actor_message,
                     )
                 processor.result = result
-
-            # revert placeholder
-            self._allocated_actors[address].pop(None, None)
+            finally:
+                # revert placeholder
+                allocated.pop(message.message_id, None)
 
         return processor.result
 
@@ -1124,6 +1164,14 @@ class MainActorPoolBase(ActorPoolBase):
             return result
         real_actor_ref = result.result
         if real_actor_ref.address == self.external_address:
+            if real_actor_ref not in self._allocated_actors[self.external_address]:
+                with _ErrorProcessor(
+                    self.external_address, message.message_id, message.protocol
+                ) as processor:
+                    raise ActorNotExist(
+                        f"Actor {real_actor_ref.uid} is still being created"
+                    )
+                return processor.result
             result = await super().destroy_actor(message)
             if result.message_type == MessageType.error:
                 return result
@@ -1131,15 +1179,14 @@ class MainActorPoolBase(ActorPoolBase):
             return ResultMessage(
                 message.message_id, real_actor_ref.uid, protocol=message.protocol
             )
-        # remove allocated actor ref
-        self._allocated_actors[real_actor_ref.address].pop(real_actor_ref, None)
+        # the sub pool will notify when the actor is destroyed
         new_destroy_message = DestroyActorMessage(
             message.message_id,
             real_actor_ref,
             from_main=True,
             protocol=message.protocol,
         )
-        return await self.call(real_actor_ref.address, new_destroy_message)
+        return await self._call_sub_pool(real_actor_ref.address, new_destroy_message)
 
     @implements(AbstractActorPool.send)
     async def send(self, message: SendMessage) -> ResultMessageType:
@@ -1292,6 +1339,22 @@ class MainActorPoolBase(ActorPoolBase):
                 processor.result = ResultMessage(
                     message.message_id, True, protocol=message.protocol
                 )
+            elif (
+                message.control_message_type == ControlMessageType.remove_sub_pool_actor
+            ):
+                address, uid, create_message_id = message.content
+                allocated = self._allocated_actors[address]
+                # the creation may not be finished here
+                allocated.pop(create_message_id, None)
+                ref = create_actor_ref(address, uid)
+                if (
+                    ref in allocated
+                    and allocated[ref][1].message_id == create_message_id
+                ):
+                    del allocated[ref]
+                processor.result = ResultMessage(
+                    message.message_id, True, protocol=message.protocol
+                )
             else:
                 processor.result = await self.call(message.address, message)
         return processor.result
-- 
2.43.0


From e5d978edea4550c8b41ddfd92383e15f0ae370b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 11/35] fix: restore object graphs exactly (inherited state,
 sharing, cycles through tuples, buffer types)

---
 python/xoscar/serialization/core.pyx | 133 ++++++++++++++++++++++-----
 1 file changed, 111 insertions(+), 22 deletions(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index bf3bf56..784b38a 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -15,6 +15,7 @@
 # limitations under the License.
 
 import asyncio
+import collections
 import datetime
 import enum
 import hashlib
@@ -315,10 +316,19 @@ cdef class BytesSerializer(Serializer):
             return Placeholder(obj_id)
         context[obj_id] = obj
 
-        return (), [obj], True
+        if isinstance(obj, bytes) and type(obj) is not bytes:
+            # keep type and attributes of inherited bytes
+            return (obj,), [], True
+        return (type(obj) is bytes,), [obj], True
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
-        return subs[0]
+        if not subs:
+            # serialized directly
+            return serialized[0]
+        buffer = subs[0]
+        if serialized[0] and type(buffer) is not bytes:
+            buffer = bytes(buffer)
+        return buffer
 
 
 cdef class StrSerializer(Serializer):
@@ -331,13 +341,43 @@ cdef class StrSerializer(Serializer):
             return Placeholder(obj_id)
         context[obj_id] = obj
 
-        return (), [(<str>obj).encode()], True
+        if type(obj) is not str:
+            # keep type and attributes of inherited strings, e.g. enums
+            return (obj,), [], True
+        return (), [(<str>obj).encode("utf-8", "surrogatepass")], True
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
+        if serialized:
+            # serialized directly
+            return serialized[0]
         buffer = subs[0]
         if type(buffer) is memoryview:
             buffer = buffer.tobytes()
-        return buffer.decode()
+        return buffer.decode("utf-8", "surrogatepass")
+
+
+cdef bint _has_only_items(object obj):
+    """
+    Check if an instance of an inherited collection
+    can be restored from its type and items
+    """
+    try:
+        reduced = obj.__reduce_ex__(4)
+    except Exception:
+        return True
+    if type(reduced) is not tuple:
+        return True
+    args = reduced[1]
+    if len(reduced) > 2 and reduced[2]:
+        # has state
+        return False
+    if isinstance(obj, tuple):
+        return hasattr(type(obj), "_fields") or (
+            len(args) == 2 and type(args[1]) is tuple and len(args[1]) == len(obj)
+        )
+    if isinstance(obj, collections.defaultdict) and len(args) == 1:
+        return args[0] is obj.default_factory
+    return len(args) == 0 or (len(args) == 1 and args[0] is type(obj))
 
 
 cdef class CollectionSerializer(Serializer):
@@ -388,6 +428,8 @@ cdef class CollectionSerializer(Serializer):
             return Placeholder(obj_id)
         context[obj_id] = obj
 
+        if type(obj) is not self._obj_type and not _has_only_items(obj):
+            return (None,), pickle_buffers(obj), True
         return self._serial_iterable(obj)
 
     cdef list _deserial_iterable(self, tuple serialized, list subs):
@@ -406,16 +448,50 @@ cdef class TupleSerializer(CollectionSerializer):
     obj_type = tuple
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
-        cdef list res = self._deserial_iterable(serialized, subs)
-        for v in res:
-            assert type(v) is not Placeholder
+        cdef list res
+        cdef int64_t idx, n_pending = 0
+        cdef Placeholder result
 
+        if len(serialized) == 1:
+            return unpickle_buffers(subs)
+
+        res = self._deserial_iterable(serialized, subs)
         obj_type = serialized[-1] or tuple
-        if hasattr(obj_type, "_fields"):
-            # namedtuple
-            return obj_type(*res)
-        else:
-            return obj_type(res)
+        for v in res:
+            if type(v) is Placeholder:
+                n_pending += 1
+        if n_pending == 0:
+            return _build_tuple(obj_type, res)
+
+        # the tuple contains itself via some other collection,
+        # and can be built only after its items are restored
+        result = Placeholder(0)
+        pending = [n_pending]
+        for idx, v in enumerate(res):
+            if type(v) is Placeholder:
+                (<Placeholder>v).callbacks.append(
+                    partial(_tuple_item_replacer, context, result, obj_type, res, pending, idx)
+                )
+        return result
+
+
+def _build_tuple(obj_type, res):
+    if hasattr(obj_type, "_fields"):
+        # namedtuple
+        return obj_type(*res)
+    else:
+        return obj_type(res)
+
+
+def _tuple_item_replacer(context, placeholder, obj_type, res, pending, idx, real_value):
+    res[idx] = real_value
+    pending[0] -= 1
+    if pending[0] == 0:
+        obj_id = (<Placeholder>placeholder).id
+        result = _build_tuple(obj_type, res)
+        placeholder, context[obj_id] = context[obj_id], result
+        for cb in (<Placeholder>placeholder).callbacks:
+            cb(result)
 
 
 cdef class ListSerializer(CollectionSerializer):
@@ -424,8 +500,12 @@ cdef class ListSerializer(CollectionSerializer):
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
         cdef int64_t idx
-        cdef list res = self._deserial_iterable(serialized, subs)
+        cdef list res
+
+        if len(serialized) == 1:
+            return unpickle_buffers(subs)
 
+        res = self._deserial_iterable(serialized, subs)
         obj_type = serialized[-1]
         if obj_type is None:
             result = res
@@ -461,14 +541,14 @@ cdef class DictSerializer(CollectionSerializer):
         cdef tuple key_obj, value_obj
         cdef list key_bufs, value_bufs
 
-        if type(obj) is dict and len(<dict>obj) == 0:
-            return (), [], True
-
         obj_id = _fast_id(obj)
         if obj_id in context:
             return Placeholder(obj_id)
         context[obj_id] = obj
 
+        if type(obj) is dict and len(<dict>obj) == 0:
+            return (), [], True
+
         obj_type = type(obj)
 
         if obj_type is not dict and obj_type not in self._inspected_inherits:
@@ -480,16 +560,18 @@ cdef class DictSerializer(CollectionSerializer):
             ):
                 # inherited dicts may not have proper initializers
                 # for deserialization
-                # remove context to generate real serialized result
-                context.pop(obj_id)
                 return (obj,), [], True
             else:
                 self._inspected_inherits.add(obj_type)
+        if obj_type is not dict and not _has_only_items(obj):
+            return (None,), pickle_buffers(obj), True
 
         key_obj, key_bufs, _ = self._serial_iterable(obj.keys())
         value_obj, value_bufs, _ = self._serial_iterable(obj.values())
         if obj_type is dict:
             obj_type = None
+        elif isinstance(obj, collections.defaultdict):
+            obj_type = partial(obj_type, obj.default_factory)
         ser_obj = (key_obj[:-1], value_obj[:-1], len(key_bufs), obj_type)
         return ser_obj, key_bufs + value_bufs, False
 
@@ -501,7 +583,7 @@ cdef class DictSerializer(CollectionSerializer):
             return {}
         if len(serialized) == 1:
             # serialized directly
-            return serialized[0]
+            return unpickle_buffers(subs) if subs else serialized[0]
 
         key_serialized, value_serialized, num_key_bufs, obj_type = serialized
         key_subs = subs[:num_key_bufs]
@@ -597,6 +679,10 @@ cdef class _SerialStackItem:
 
 cdef class _IdContextHolder:
     cdef unordered_map[uint64_t, uint64_t] d
+    cdef uint64_t n_objects
+
+    def __cinit__(self):
+        self.n_objects = 0
 
 
 cdef int _COMMON_HEADER_LEN = 4
@@ -624,7 +710,9 @@ cdef tuple _serial_single(
                 ordered_id = id_context_holder.d[obj_id]
             else:
                 obj_id = _fast_id(obj)
-                ordered_id = id_context_holder.d.size()
+                # an object may be serialized more than once
+                ordered_id = id_context_holder.n_objects
+                id_context_holder.n_objects += 1
                 id_context_holder.d[obj_id] = ordered_id
 
             # REMEMBER to change _COMMON_HEADER_LEN when content of
@@ -821,16 +909,17 @@ cdef _deserial_single(tuple serialized, dict context, list subs):
     res = serializer.deserial(serialized[_COMMON_HEADER_LEN:], context, subs)
 
     if type(res) is Placeholder:
+        (<Placeholder>res).id = obj_id
         try:
             res = context[obj_id]
         except KeyError:
-            (<Placeholder>res).id = obj_id
+            pass
 
     # get previously-recorded context values
     context_val, context[obj_id] = context.get(obj_id), res
     # if previously recorded object is a Placeholder,
     # replace it with callbacks
-    if type(context_val) is Placeholder:
+    if type(context_val) is Placeholder and context_val is not res:
         for cb in (<Placeholder>context_val).callbacks:
             cb(res)
     return res
-- 
2.43.0


From cb329423abd371de11ac535729ae6bbe86157cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:25 +0000
Subject: [PATCH 12/35] fix: serialize array, sparse matrix and tensor variants
 correctly

---
 python/xoscar/serialization/numpy.py |  3 ++-
 python/xoscar/serialization/scipy.py | 10 +++-----
 python/xoscar/serialization/torch.py | 36 ++++++++++++++++++++++------
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/python/xoscar/serialization/numpy.py b/python/xoscar/serialization/numpy.py
index b5fb2c4..e32478b 100644
--- a/python/xoscar/serialization/numpy.py
+++ b/python/xoscar/serialization/numpy.py
@@ -24,7 +24,8 @@ class NDArraySerializer(Serializer):
     @buffered
     def serial(self, obj: np.ndarray, context: Dict):
         header: dict = {}
-        if obj.dtype.hasobject:
+        if obj.dtype.hasobject or type(obj) is not np.ndarray:
+            # objects inside, or a subclass with a state of its own
             header["pickle"] = True
             buffers = pickle_buffers(obj)
             return (header,), buffers, True
diff --git a/python/xoscar/serialization/scipy.py b/python/xoscar/serialization/scipy.py
index 9c83d71..f4da8a0 100644
--- a/python/xoscar/serialization/scipy.py
+++ b/python/xoscar/serialization/scipy.py
@@ -15,8 +15,6 @@
 
 from typing import Any, Dict, List, Tuple
 
-import numpy as np
-
 try:
     import scipy.sparse as sps
 except ImportError:  # pragma: no cover
@@ -59,11 +57,9 @@ class CsrMatrixSerializer(Serializer):
         indptr = deserialize(indptr_header, indptr_buffers)
         shape = tuple(shape)
 
-        empty_arr = np.zeros(0, dtype=data.dtype)
-
-        target_csr = sps.coo_matrix(
-            (empty_arr, (empty_arr,) * 2), dtype=data.dtype, shape=shape
-        ).tocsr()
+        # do not start from a matrix whose format flags (sorted, canonical)
+        # have been computed already, they may not hold for the real data
+        target_csr = sps.csr_matrix(shape, dtype=data.dtype)
         target_csr.data, target_csr.indices, target_csr.indptr = data, indices, indptr
         return target_csr
 
diff --git a/python/xoscar/serialization/torch.py b/python/xoscar/serialization/torch.py
index 835aaa9..0a6e7b6 100644
--- a/python/xoscar/serialization/torch.py
+++ b/python/xoscar/serialization/torch.py
@@ -17,7 +17,7 @@ from typing import Any, Dict, List, Tuple
 import numpy as np
 
 from ..utils import lazy_import
-from .core import Serializer, buffered
+from .core import Serializer, buffered, pickle_buffers, unpickle_buffers
 
 # lazy import PyTorch to avoid enforced dependency
 torch = lazy_import("torch")
@@ -30,22 +30,36 @@ def rmm_to_torch(buf):
     return torch_tensor
 
 
+def _need_pickle(obj) -> bool:
+    if type(obj) is not torch.Tensor:
+        # parameters, other subclasses
+        return True
+    if obj.device.type not in ("cpu", "cuda"):
+        return True
+    # sparse and quantized tensors are more than one piece of memory
+    return obj.layout != torch.strided or obj.is_quantized
+
+
 class TorchTensorSerializer(Serializer):
     @buffered
     def serial(self, obj: "torch.Tensor", context: Dict):  # type: ignore
+        if _need_pickle(obj):
+            return ({"device": "pickle"},), pickle_buffers(obj), True
         # for cpu tensor, use memory viewpoint
         if obj.device.type == "cpu":
-            # make sure tensor is contiguous
-            if not obj.is_contiguous():
-                obj = obj.contiguous()
             # get memory viewpoint and collect header information
             header = {
                 "shape": tuple(obj.shape),
                 "dtype": str(obj.dtype),
                 "device": obj.device.type,
                 "requires_grad": obj.requires_grad,
-                "strides": tuple(obj.stride()),
             }
+            # the values only, lazily conjugated or negated ones are computed
+            obj = obj.detach().resolve_conj().resolve_neg()
+            # make sure tensor is contiguous
+            if not obj.is_contiguous():
+                obj = obj.contiguous()
+            header["strides"] = tuple(obj.stride())
             # Try zero-copy path: torch -> numpy
             try:
                 np_array = obj.numpy()  # zero-copy if supported
@@ -56,7 +70,9 @@ class TorchTensorSerializer(Serializer):
             except Exception:
                 # Fallback: copy to uint8 bytes
                 # This works for ANY dtype
-                byte_tensor = obj.view(torch.uint8).clone()  # explicit copy
+                flat = torch.empty(obj.numel(), dtype=obj.dtype)
+                flat.copy_(obj.reshape(-1))  # explicit copy
+                byte_tensor = flat.view(torch.uint8)
                 np_array = byte_tensor.numpy()
                 buffer = memoryview(np_array)
                 header["format"] = "bytes"
@@ -103,6 +119,8 @@ class TorchTensorSerializer(Serializer):
     def deserial(self, serialized: Tuple, context: Dict, subs: List[Any]):
         header = serialized[0]
         device = header["device"]
+        if device == "pickle":
+            return unpickle_buffers(subs)
         data_buffer = subs[0]
 
         if device == "cpu":
@@ -110,7 +128,11 @@ class TorchTensorSerializer(Serializer):
             dtype_name = header["dtype"].split(".")[-1]
             dtype = getattr(torch, dtype_name)
 
-            if fmt == "numpy":
+            if 0 in header["shape"]:
+                # frombuffer refuses buffers without any data
+                tensor = torch.empty(header["shape"], dtype=dtype)
+
+            elif fmt == "numpy":
                 # zero-copy path
                 np_array = np.frombuffer(data_buffer, dtype=np.dtype(dtype_name))
                 tensor = torch.from_numpy(np_array).view(header["shape"])
-- 
2.43.0


From a69e4266f2f3d5d05fda12fe2a5990ebe1d2f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:49 +0000
Subject: [PATCH 13/35] fix: wake up every waiter for a recovery and recover
 over a stale connection

---
 python/xoscar/backends/indigen/pool.py | 10 +++++++++-
 python/xoscar/backends/pool.py         | 14 ++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 91d6ceb..d00e6d2 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -36,6 +36,7 @@ import psutil
 
 from ..._utils import reset_id_random_seed
 from ...core import ActorRef
+from ...errors import ServerClosed
 from ...utils import ensure_coverage
 from ..config import ActorPoolConfig
 from ..message import (
@@ -411,6 +412,7 @@ class MainActorPool(MainActorPoolBase):
         process = self.sub_processes[external_address]
         process_index = self._config.get_process_index(external_address)
         del self.sub_processes[external_address]
+        self._set_recover_event(external_address)
         self._config.remove_pool_config(process_index)
         await self.stop_sub_pool(external_address, process, timeout, force)
 
@@ -507,7 +509,13 @@ class MainActorPool(MainActorPoolBase):
                     # placeholder of an actor that is being created
                     continue
                 create_actor_message: CreateActorMessage = message  # type: ignore
-                await self.call(address, create_actor_message)
+                try:
+                    await self.call(address, create_actor_message)
+                except (ConnectionError, ServerClosed):
+                    if not await self.is_sub_pool_alive(self.sub_processes[address]):
+                        raise
+                    # it was the connection to the dead process, connect again
+                    await self.call(address, create_actor_message)
 
     async def start(self):
         await super().start()
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 7b638d5..b0c6713 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1320,6 +1320,9 @@ class MainActorPoolBase(ActorPoolBase):
                 )
             elif message.control_message_type == ControlMessageType.wait_pool_recovered:
                 if self._auto_recover and message.address not in self._recover_events:
+                    if message.address not in self.sub_processes:
+                        # nobody would ever set the event
+                        raise ValueError(f"Sub pool {message.address} does not exist")
                     self._recover_events[message.address] = asyncio.Event()
 
                 event = self._recover_events.get(message.address, None)
@@ -1447,6 +1450,9 @@ class MainActorPoolBase(ActorPoolBase):
             except asyncio.CancelledError:
                 pass  # Expected when cancelling the task
             self._monitor_task = None
+        # wake up those who wait for a recovery
+        for address in list(self._recover_events):
+            self._set_recover_event(address)
         await self.stop_sub_pools()
         await super().stop()
 
@@ -1541,6 +1547,11 @@ class MainActorPoolBase(ActorPoolBase):
             # or only recover process, remove all created actors
             self._allocated_actors[address] = dict()
 
+    def _set_recover_event(self, address: str):
+        event = self._recover_events.pop(address, None)
+        if event is not None:
+            event.set()
+
     async def monitor_sub_pools(self):
         try:
             while not self._stopped.is_set():
@@ -1559,8 +1570,7 @@ class MainActorPoolBase(ActorPoolBase):
                                 if self._on_process_recover is not None:
                                     self._on_process_recover(self, address)
                         if recover_events_discovered:
-                            event = self._recover_events.pop(address)
-                            event.set()
+                            self._set_recover_event(address)
                     except asyncio.CancelledError:
                         raise
                     except RuntimeError as ex:  # pragma: no cover
-- 
2.43.0


From c5bbefe8b8902d11de6e5b5f2cc3e599bdb341cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 14/35] fix: end the processes of sub pools whose start fails
 or is abandoned

---
 python/xoscar/backends/config.py       |  6 +--
 python/xoscar/backends/indigen/pool.py | 69 ++++++++++++++++++--------
 python/xoscar/backends/pool.py         | 11 +++-
 3 files changed, 60 insertions(+), 26 deletions(-)

diff --git a/python/xoscar/backends/config.py b/python/xoscar/backends/config.py
index 8b34212..f43c4bc 100644
--- a/python/xoscar/backends/config.py
+++ b/python/xoscar/backends/config.py
@@ -73,9 +73,9 @@ class ActorPoolConfig:
             mapping[addr] = internal_address
 
     def remove_pool_config(self, process_index: int):
-        addr = self.get_external_address(process_index)
-        del self._conf["pools"][process_index]
-        del self._conf["mapping"][addr]
+        conf = self._conf["pools"].pop(process_index)
+        for addr in conf["external_address"]:
+            self._conf["mapping"].pop(addr, None)
 
     def get_pool_config(self, process_index: int):
         return self._conf["pools"][process_index]
diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index d00e6d2..d5a54c9 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -151,18 +151,30 @@ class MainActorPool(MainActorPoolBase):
     async def wait_sub_pools_ready(cls, create_pool_tasks: List[asyncio.Task]):
         processes: list[asyncio.subprocess.Process] = []
         ext_addresses = []
-        error = None
-        for task in create_pool_tasks:
-            process, address = await task
-            processes.append(process)
-            ext_addresses.append(address)
-        if error:
-            for p in processes:
-                # error happens, kill all subprocesses
-                p.kill()
-            raise error
+        try:
+            for task in create_pool_tasks:
+                process, address = await task
+                processes.append(process)
+                ext_addresses.append(address)
+        except BaseException:
+            # error happens, kill all subprocesses
+            for task in create_pool_tasks:
+                task.cancel()
+            results = await asyncio.gather(*create_pool_tasks, return_exceptions=True)
+            for result in results:
+                if not isinstance(result, BaseException):
+                    cls._kill_process(result[0])
+            raise
         return processes, ext_addresses
 
+    @staticmethod
+    def _kill_process(process: asyncio.subprocess.Process):
+        try:
+            process.kill()
+        except ProcessLookupError:
+            # Process already dead
+            pass
+
     @classmethod
     def _start_sub_pool_in_child(
         cls,
@@ -324,15 +336,19 @@ class MainActorPool(MainActorPoolBase):
                 except asyncio.CancelledError:
                     pass
 
-            _, unfinished = await asyncio.wait(
-                [
-                    asyncio.create_task(process.wait()),
-                    asyncio.create_task(asyncio.to_thread(_get_external_addresses)),
-                ],
-                return_when=asyncio.FIRST_COMPLETED,
-            )
-            for t in unfinished:
-                t.cancel()
+            tasks = [
+                asyncio.create_task(process.wait()),
+                asyncio.create_task(asyncio.to_thread(_get_external_addresses)),
+            ]
+            try:
+                await asyncio.wait(tasks, return_when=asyncio.FIRST_COMPLETED)
+            except asyncio.CancelledError:
+                # nobody will ever know about this process
+                MainActorPool._kill_process(process)
+                raise
+            finally:
+                for t in tasks:
+                    t.cancel()
         finally:
             shm.close()
             shm.unlink()
@@ -389,9 +405,18 @@ class MainActorPool(MainActorPoolBase):
             kwargs,
         )
 
-        process, external_addresses = await self._create_sub_pool_from_parent(
-            self._config, process_index, start_python
-        )
+        try:
+            process, external_addresses = await self._create_sub_pool_from_parent(
+                self._config, process_index, start_python
+            )
+        except BaseException:
+            self._config.remove_pool_config(process_index)
+            raise
+        if self._stopped.is_set():
+            # stopped while the sub pool was starting, nobody else would stop it
+            self._config.remove_pool_config(process_index)
+            await self.kill_sub_pool(process, force=True)
+            raise RuntimeError("pool has been stopped, cannot append sub pool")
 
         self._config.reset_pool_external_address(process_index, external_addresses[0])
         self.attach_sub_process(external_addresses[0], process)
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index b0c6713..0ccefc5 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1405,7 +1405,16 @@ class MainActorPoolBase(ActorPoolBase):
                 )
 
         # create main actor pool
-        pool: MainActorPoolType = await super().create(config)
+        try:
+            pool: MainActorPoolType = await super().create(config)
+        except BaseException:
+            # error happens, kill all subprocesses
+            for proc in processes:
+                try:
+                    proc.kill()
+                except ProcessLookupError:
+                    pass
+            raise
         addresses = actor_pool_config.get_external_addresses()[1:]
 
         assert len(addresses) == len(
-- 
2.43.0


From d3a6d4c654da8754c7f293f9569188662c2e1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 15/35] fix: remove exactly the routes of a removed router,
 route control messages through proxies

---
 python/xoscar/backends/core.py   |  2 --
 python/xoscar/backends/pool.py   |  2 +-
 python/xoscar/backends/router.py | 50 +++++++++++++++++++++++++-------
 3 files changed, 41 insertions(+), 13 deletions(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index ee86388..d8f869c 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -31,7 +31,6 @@ from .message import (
     DeserializeMessageFailed,
     ErrorMessage,
     ForwardMessage,
-    MessageType,
     ResultMessage,
     _MessageBase,
 )
@@ -216,7 +215,6 @@ class ActorCallerThreadLocal:
         if (
             client.channel_type == ChannelType.remote
             and client.dest_address != dest_address
-            and message.message_type != MessageType.control
         ):
             # wrap message with forward message
             message = ForwardMessage(
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 0ccefc5..f8e6501 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1064,7 +1064,7 @@ class MainActorPoolBase(ActorPoolBase):
         # make sure different processes does not share process indexes
         pid = os.getpid()
         for idx in cls._process_index_gen:
-            yield pid << 16 + idx
+            yield (pid << 16) + idx
 
     @property
     def _sub_processes(self):
diff --git a/python/xoscar/backends/router.py b/python/xoscar/backends/router.py
index c14a074..9006d8d 100644
--- a/python/xoscar/backends/router.py
+++ b/python/xoscar/backends/router.py
@@ -38,6 +38,7 @@ class Router:
         "_mapping",
         "_comm_config",
         "_proxy_config",
+        "_routers",
         "_cache_local",
     )
 
@@ -73,6 +74,8 @@ class Router:
         self._mapping = mapping
         self._comm_config = comm_config or dict()
         self._proxy_config = proxy_config or dict()
+        # routers that were added, and copies of what they contributed
+        self._routers: list[tuple["Router", tuple]] = []
         self._cache_local = threading.local()
 
     @property
@@ -96,6 +99,19 @@ class Router:
         self._cache_local = threading.local()
 
     def add_router(self, router: "Router"):
+        self._routers.append(
+            (
+                router,
+                (
+                    list(router._curr_external_addresses),
+                    dict(router._local_mapping),
+                    # may be changed later by its owner
+                    dict(router._mapping),
+                    dict(router._comm_config),
+                    dict(router._proxy_config),
+                ),
+            )
+        )
         self._curr_external_addresses.extend(router._curr_external_addresses)
         self._local_mapping.update(router._local_mapping)
         self._mapping.update(router._mapping)
@@ -104,17 +120,31 @@ class Router:
         self._cache_local = threading.local()
 
     def remove_router(self, router: "Router"):
-        for external_address in router._curr_external_addresses:
-            try:
-                self._curr_external_addresses.remove(external_address)
-            except ValueError:
-                pass
-        for addr in router._local_mapping:
-            self._local_mapping.pop(addr, None)
-        for addr in router._mapping:
-            self._mapping.pop(addr, None)
+        contents = [c for r, c in self._routers if r is router]
+        self._routers = [(r, c) for r, c in self._routers if r is not router]
+        for addresses, *dicts in contents:
+            for external_address in addresses:
+                try:
+                    self._curr_external_addresses.remove(external_address)
+                except ValueError:
+                    pass
+            for own, removed in zip(self._route_dicts(), dicts):
+                for key in removed:
+                    own.pop(key, None)
+        # the remaining routers may have had entries of the same name
+        for _, (_, *dicts) in self._routers:
+            for own, remaining in zip(self._route_dicts(), dicts):
+                own.update(remaining)
         self._cache_local = threading.local()
 
+    def _route_dicts(self) -> tuple[dict, dict, dict, dict]:
+        return (
+            self._local_mapping,
+            self._mapping,
+            self._comm_config,
+            self._proxy_config,
+        )
+
     @property
     def external_address(self):
         if self._curr_external_addresses:
@@ -251,7 +281,7 @@ class Router:
            All the messages will be sent to 127.0.0.1:12346 as forward one.
         """
 
-        host = from_addr.split(":", 1)[0]
+        host = from_addr.split("://", 1)[-1].rsplit(":", 1)[0]
 
         proxy_map = self._proxy_config
         addr = proxy_map.get(from_addr)
-- 
2.43.0


From ed4a4c1c47a4275fa82935e5e4d65f9c449e7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:30 +0000
Subject: [PATCH 16/35] fix: wake up receivers of an in-process channel when it
 is closed

---
 python/xoscar/backends/communication/dummy.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/communication/dummy.py b/python/xoscar/backends/communication/dummy.py
index 4f1ddee..f7a0618 100644
--- a/python/xoscar/backends/communication/dummy.py
+++ b/python/xoscar/backends/communication/dummy.py
@@ -32,6 +32,9 @@ DEFAULT_DUMMY_ADDRESS = "dummy://0"
 
 logger = logging.getLogger(__name__)
 
+# put into the queues to wake up receivers when a channel is closed
+_CLOSED = object()
+
 
 class DummyChannel(Channel):
     """
@@ -77,14 +80,23 @@ class DummyChannel(Channel):
         if self._closed.is_set():  # pragma: no cover
             raise ChannelClosed("Channel already closed, cannot write message")
         try:
-            return await self._in_queue.get()
+            message = await self._in_queue.get()
         except RuntimeError:
             if self._closed.is_set():
                 pass
+            return
+        if message is _CLOSED:
+            # wake up other receivers as well
+            self._in_queue.put_nowait(_CLOSED)
+            raise ChannelClosed("Channel already closed, cannot receive message")
+        return message
 
     @implements(Channel.close)
     async def close(self):
-        self._closed.set()
+        if not self._closed.is_set():
+            self._closed.set()
+            self._in_queue.put_nowait(_CLOSED)
+            self._out_queue.put_nowait(_CLOSED)
 
     @property
     @implements(Channel.closed)
-- 
2.43.0


From c09846df66af6c0bd6de7b812e75f07d6030b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:26 +0000
Subject: [PATCH 17/35] fix: restore allocation strategies as part of a
 message's content

---
 python/xoscar/backends/message.pyx | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/xoscar/backends/message.pyx b/python/xoscar/backends/message.pyx
index 202aa97..eb4092d 100644
--- a/python/xoscar/backends/message.pyx
+++ b/python/xoscar/backends/message.pyx
@@ -313,19 +313,21 @@ cdef class CreateActorMessage(_MessageBase):
     cdef _MessageSerialItem serial(self):
         cdef _MessageSerialItem item = _MessageBase.serial(self)
         item.serialized += (
-            self.actor_id, self.allocate_strategy, self.from_main
+            self.actor_id, self.from_main
         )
-        item.subs = [self.actor_cls, self.args, self.kwargs]
+        item.subs = [
+            self.actor_cls, self.args, self.kwargs, self.allocate_strategy
+        ]
         return item
 
     cdef deserial_members(self, tuple serialized, list subs):
         _MessageBase.deserial_members(self, serialized, subs)
-        self.actor_id = serialized[-3]
-        self.allocate_strategy = serialized[-2]
+        self.actor_id = serialized[-2]
         self.from_main = serialized[-1]
         self.actor_cls = subs[0]
         self.args = subs[1]
         self.kwargs = subs[2]
+        self.allocate_strategy = subs[3]
 
 
 cdef class DestroyActorMessage(_MessageBase):
-- 
2.43.0


From 23c30b3e13c925e5794b839e81cd6a54b8dcb4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 18/35] fix: keep batches of calls equivalent to the single
 calls

---
 python/xoscar/batch.py |  69 ++++++++++++++++++++++++----
 python/xoscar/core.pyx | 100 ++++++++++++++++++++++++++++-------------
 2 files changed, 128 insertions(+), 41 deletions(-)

diff --git a/python/xoscar/batch.py b/python/xoscar/batch.py
index e75bfc4..30bbab3 100644
--- a/python/xoscar/batch.py
+++ b/python/xoscar/batch.py
@@ -36,6 +36,11 @@ def build_args_binder(func, remove_self: bool = True) -> Callable | None:
     if remove_self:
         args_list = args_list[1:]
 
+    # getfullargspec() does not tell positional-only arguments apart
+    n_pos_only = getattr(getattr(func, "__code__", None), "co_posonlyargcount", 0)
+    if n_pos_only:
+        sig_list.insert(n_pos_only, "/")
+
     if spec.varargs:
         sig_list.append(f"*{spec.varargs}")
         args_list.append(spec.varargs)
@@ -64,7 +69,7 @@ def build_args_binder(func, remove_self: bool = True) -> Callable | None:
     )
 
     glob_vars = globals().copy()
-    glob_vars[ret_type_name] = namedtuple(ret_type_name, args_list)
+    glob_vars[ret_type_name] = namedtuple(ret_type_name, args_list, rename=True)
     loc_vars: dict[str, Any] = dict()
     exec(func_str, glob_vars, loc_vars)
     ext_func = loc_vars[ret_func_name]
@@ -74,6 +79,41 @@ def build_args_binder(func, remove_self: bool = True) -> Callable | None:
     return ext_func
 
 
+async def _wait_done(tasks: list[asyncio.Task]):
+    """Wait till all tasks end, cancel them once the waiter is cancelled"""
+    cancelled = False
+    while True:
+        pending = [task for task in tasks if not task.done()]
+        if not pending:
+            break
+        try:
+            await asyncio.wait(pending)
+        except asyncio.CancelledError:
+            cancelled = True
+            _ = [task.cancel() for task in pending]
+    if cancelled:
+        raise asyncio.CancelledError
+
+
+async def _await_first(awaitable):
+    ret = await awaitable
+    return None if ret is None else ret[0]
+
+
+async def _await_coroutines(results: list):
+    """Await coroutines returned by members of a batch one by one"""
+    pos = 0
+    try:
+        for pos, ret in enumerate(results):
+            if asyncio.iscoroutine(ret):
+                results[pos] = await ret
+        return results
+    finally:
+        for ret in results[pos:]:
+            if asyncio.iscoroutine(ret):
+                ret.close()
+
+
 @dataclass
 class _DelayedArgument:
     args: tuple
@@ -102,7 +142,9 @@ class _ExtensibleCallable:
             self.has_single_func = False
 
         if self.batch_func is not None:
-            ret = await self.batch_func([args], [kwargs])
+            ret = self.batch_func([args], [kwargs])
+            if inspect.isawaitable(ret):
+                ret = await ret
             return None if ret is None else ret[0]
         raise NotImplementedError
 
@@ -116,7 +158,10 @@ class _ExtensibleCallable:
             self.has_single_func = False
 
         if self.batch_func is not None:
-            return self.batch_func([args], [kwargs])[0]
+            ret = self.batch_func([args], [kwargs])
+            if asyncio.iscoroutine(ret):
+                return _await_first(ret)
+            return None if ret is None else ret[0]
         raise NotImplementedError
 
 
@@ -152,19 +197,22 @@ class _ExtensibleWrapper(_ExtensibleCallable):
         elif len(args_list) == 1:
             return [await self._async_call(*args_list[0], **kwargs_list[0])]
         elif self.batch_func:
-            return await self.batch_func(args_list, kwargs_list)
+            ret = self.batch_func(args_list, kwargs_list)
+            return await ret if inspect.isawaitable(ret) else ret
         else:
             # this function has no batch implementation
             # call it separately
-            tasks = [
-                asyncio.create_task(self.func(*args, **kwargs))
-                for args, kwargs in zip(args_list, kwargs_list)
-            ]
+            tasks: list[asyncio.Task] = []
             try:
+                for args, kwargs in zip(args_list, kwargs_list):
+                    tasks.append(asyncio.create_task(self.func(*args, **kwargs)))
                 return await asyncio.gather(*tasks)
             except asyncio.CancelledError:
                 _ = [task.cancel() for task in tasks]
                 return await asyncio.gather(*tasks)
+            finally:
+                # no member shall run any more when the batch has ended
+                await _wait_done(tasks)
 
     def _sync_batch(self, args_list, kwargs_list):
         if len(args_list) == 0:
@@ -174,10 +222,13 @@ class _ExtensibleWrapper(_ExtensibleCallable):
         else:
             # this function has no batch implementation
             # call it separately
-            return [
+            results = [
                 self.func(*args, **kwargs)
                 for args, kwargs in zip(args_list, kwargs_list)
             ]
+            if any(asyncio.iscoroutine(ret) for ret in results):
+                return _await_coroutines(results)
+            return results
 
     def batch(self, *delays):
         args_list, kwargs_list = self._gen_args_kwargs_list(delays)
diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index 236819e..f007fe2 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -162,6 +162,33 @@ cdef class _DelayedArgument:
         self.arguments = arguments
 
 
+cdef tuple _unpack_delays(tuple delays, object default_method_name):
+    """
+    Get the method all delayed calls belong to, and lists of their arguments
+    """
+    cdef:
+        list args_list = []
+        list kwargs_list = []
+        object last_method = None
+
+    for delay in delays:
+        if isinstance(delay, _DelayedArgument):
+            method, _call_method, args, kwargs = (<_DelayedArgument>delay).arguments
+        else:
+            # created by the extensible method itself
+            method, args, kwargs = default_method_name, delay.args, delay.kwargs
+        if last_method is not None and method != last_method:
+            raise ValueError('Does not support calling multiple methods in batch')
+        last_method = method
+
+        args_list.append(args)
+        kwargs_list.append(kwargs)
+
+    if last_method is None:
+        last_method = default_method_name
+    return last_method, args_list, kwargs_list
+
+
 cdef class ActorRefMethod:
     """
     Wrapper for an Actor method at client
@@ -194,35 +221,12 @@ cdef class ActorRefMethod:
         return _DelayedArgument(arg_tuple)
 
     def batch(self, *delays, send=True):
-        cdef:
-            long n_delays = len(delays)
-            bint has_kw = False
-            list args_list
-            list kwargs_list
-            _DelayedArgument delay
-
-        args_list = [None] * n_delays
-        kwargs_list = [None] * n_delays
-
-        last_method = None
-        for idx in range(n_delays):
-            delay = delays[idx]
-            method, _call_method, args, kwargs = delay.arguments
-            if last_method is not None and method != last_method:
-                raise ValueError('Does not support calling multiple methods in batch')
-            last_method = method
-
-            args_list[idx] = args
-            kwargs_list[idx] = kwargs
-            if kwargs:
-                has_kw = True
-
-        if not has_kw:
+        method_name, args_list, kwargs_list = _unpack_delays(delays, self.method_name)
+
+        if not any(kwargs_list):
             kwargs_list = None
-        if last_method is None:
-            last_method = self.method_name
 
-        message = (last_method, CALL_METHOD_BATCH, (args_list, kwargs_list), None)
+        message = (method_name, CALL_METHOD_BATCH, (args_list, kwargs_list), None)
         return get_context().send(self.ref, message, wait_response=send, **self._options)
 
     def tell_delay(self, *args, delay=None, ignore_conn_fail=True, **kwargs):
@@ -344,13 +348,17 @@ cdef class LocalActorRefMethod:
         return asyncio.sleep(0)
 
     def delay(self, *args, **kwargs):
-        actor, method = self._get_referent()
-        return method.delay(*args, **kwargs)
+        arg_tuple = (self._method_name, CALL_METHOD_DEFAULT, args, kwargs)
+        return _DelayedArgument(arg_tuple)
 
     def batch(self, *delays, send=True):
+        method_name, args_list, kwargs_list = _unpack_delays(delays, self._method_name)
         actor, method = self._get_referent()
+        if method_name != self._method_name:
+            method = getattr(actor, method_name)
         coro = _actor_method_wrapper(
-            method.batch, actor._handle_actor_result, (<_BaseActor>actor)._lock, delays, dict())
+            method.call_with_lists, actor._handle_batch_result,
+            (<_BaseActor>actor)._lock, (args_list, kwargs_list), dict())
         if send:
             return coro
         else:
@@ -365,6 +373,10 @@ cdef class LocalActorRefMethod:
         return asyncio.create_task(delay_fun())
 
 
+def _is_unfinished(result) -> bool:
+    return inspect.isawaitable(result) or is_async_generator(result)
+
+
 cdef class _BaseActor:
     """
     Base Indigen actor class, user methods implemented as methods
@@ -466,6 +478,28 @@ cdef class _BaseActor:
 
         return result
 
+    async def _handle_batch_result(self, result):
+        """
+        Handle results of a batch in the same way as those of single calls
+        """
+        cdef bint has_unfinished = False
+        cdef list items
+
+        if type(result) is not list:
+            return await self._handle_actor_result(result)
+
+        items = []
+        for item in result:
+            if _is_unfinished(item) or (
+                type(item) is tuple and any(_is_unfinished(sub) for sub in item)
+            ):
+                item = self._handle_actor_result(item)
+                has_unfinished = True
+            items.append(item)
+        if not has_unfinished:
+            return result
+        return list(await self._handle_actor_result(tuple(items)))
+
     async def _run_actor_async_generator(self, gen: AsyncGenerator):
         """
         Run an async generator under Actor lock
@@ -546,7 +580,7 @@ cdef class _BaseActor:
                 if _has_no_lock_hint_for_method(func):
                     args_list, kwargs_list = args
                     if kwargs_list is None:
-                        kwargs_list = [{}] * len(args_list)
+                        kwargs_list = [{} for _ in args_list]
                     result = func.call_with_lists(args_list, kwargs_list)
                     if asyncio.iscoroutine(result):
                         result = await result
@@ -557,13 +591,15 @@ cdef class _BaseActor:
                                                  method, self.uid, len(args)):
                             args_list, kwargs_list = args
                             if kwargs_list is None:
-                                kwargs_list = [{}] * len(args_list)
+                                kwargs_list = [{} for _ in args_list]
                             result = func.call_with_lists(args_list, kwargs_list)
                             if asyncio.iscoroutine(result):
                                 result = await result
             else:  # pragma: no cover
                 raise ValueError(f'call_method {call_method} not valid')
 
+            if call_method == CALL_METHOD_BATCH:
+                return await self._handle_batch_result(result)
             return await self._handle_actor_result(result)
         except Exception as ex:
             if _log_unhandled_errors:
-- 
2.43.0


From 0b9f6e4a1a9c3ef0bbeb7c74c84d33e86a1dde03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 19/35] fix: await results of a tuple at their positions,
 cancel waiting generators under the lock

---
 python/xoscar/core.pyx | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index f007fe2..13c1dce 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -454,7 +454,7 @@ cdef class _BaseActor:
                 else:
                     result = tuple(task_result if t is coros[0] else t for t in values)
             elif len(coros) > 0:
-                tasks = [asyncio.create_task(t) for t in coros]
+                tasks = [asyncio.ensure_future(t) for t in coros]
                 try:
                     dones, pending = await asyncio.wait(tasks)
                 except asyncio.CancelledError:
@@ -467,8 +467,7 @@ cdef class _BaseActor:
                 if extract_tuple:
                     result = list(dones)[0].result()
                 else:
-                    for pos in coro_poses:
-                        task = tasks[pos]
+                    for pos, task in zip(coro_poses, tasks):
                         values[pos] = task.result()
                     result = tuple(values)
 
@@ -506,6 +505,8 @@ cdef class _BaseActor:
         """
         cdef tuple res_tuple
         cdef bint is_exception = False
+        cdef bint lock_held = False
+        cdef bint started = False
         cdef object res
         cdef object message_trace = None, pop_message_trace = None, set_message_trace = None
 
@@ -513,13 +514,25 @@ cdef class _BaseActor:
         try:
             res = None
             while True:
-                async with self._lock:
-                    with debug_async_timeout('actor_lock_timeout',
-                                             'async_generator %r hold lock timeout', gen):
-                        if not is_exception:
-                            res = await gen.asend(res)
-                        else:
-                            res = await gen.athrow(*res)
+                lock_held = False
+                try:
+                    async with self._lock:
+                        lock_held = True
+                        with debug_async_timeout('actor_lock_timeout',
+                                                 'async_generator %r hold lock timeout', gen):
+                            if not is_exception:
+                                res = await gen.asend(res)
+                            else:
+                                res = await gen.athrow(*res)
+                except asyncio.CancelledError:
+                    if lock_held or not started:
+                        raise
+                    # cancelled while waiting to resume, let the generator
+                    # see it and clean up, which needs the lock as well
+                    res = sys.exc_info()
+                    is_exception = True
+                    continue
+                started = True
                 try:
                     if _log_cycle_send:
                         message_trace = pop_message_trace()
-- 
2.43.0


From 5c520d4f31e8d79754c74f418d896d36e8757b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 20/35] fix: tell the end of a remote iteration from errors of
 the generator

---
 python/xoscar/api.py    | 17 +++++++++++------
 python/xoscar/errors.py |  6 ++++++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index bfaf6b6..207facf 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -42,6 +42,7 @@ from .aio import AioFileObject
 from .backend import get_backend
 from .context import get_context
 from .core import ActorRef, BufferRef, FileObjectRef, _Actor, _StatelessActor
+from .errors import GeneratorFinished
 
 if TYPE_CHECKING:
     from .backends.config import ActorPoolConfig
@@ -334,6 +335,7 @@ class IteratorWrapper(Generic[T]):
         self._actor_uid = actor_uid
         self._actor_ref = None
         self._gc_destroy = True
+        self._finished = False
 
     async def destroy(self):
         if self._actor_ref is None:
@@ -365,6 +367,8 @@ class IteratorWrapper(Generic[T]):
         return state
 
     async def __anext__(self) -> T:
+        if self._finished:
+            raise StopAsyncIteration
         if self._actor_ref is None:
             self._actor_ref = await actor_ref(
                 address=self._actor_addr, uid=self._actor_uid
@@ -372,11 +376,9 @@ class IteratorWrapper(Generic[T]):
         try:
             assert self._actor_ref is not None
             return await self._actor_ref.__xoscar_next__(self._uid)
-        except Exception as e:
-            if "StopIteration" in str(e):
-                raise StopAsyncIteration
-            else:
-                raise
+        except GeneratorFinished:
+            self._finished = True
+            raise StopAsyncIteration from None
 
 
 class AsyncActorMixin:
@@ -436,6 +438,9 @@ class AsyncActorMixin:
                 return next(_gen)
             except StopIteration:
                 return stop
+            except StopAsyncIteration as e:
+                # would be taken for the end of the generator
+                raise RuntimeError("generator raised StopAsyncIteration") from e
 
         async def _async_wrapper(_gen):
             try:
@@ -466,7 +471,7 @@ class AsyncActorMixin:
             if r is stop:
                 await self.__xoscar_destroy_generator__(generator_uid)
                 del gen  # Avoid exception hold generator reference.
-                raise Exception("StopIteration")
+                raise GeneratorFinished("StopIteration")
             else:
                 return r
         else:
diff --git a/python/xoscar/errors.py b/python/xoscar/errors.py
index 2fe4798..d357d7d 100644
--- a/python/xoscar/errors.py
+++ b/python/xoscar/errors.py
@@ -61,3 +61,9 @@ class SendMessageFailed(XoscarError):
 class Return(XoscarError):
     def __init__(self, value):
         self.value = value
+
+
+class GeneratorFinished(XoscarError):
+    """
+    Generator of an actor has no more values.
+    """
-- 
2.43.0


From bfacc9d6ed3f18bf080a13093e4f23cc10d9b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:49 +0000
Subject: [PATCH 21/35] fix: report failed writes of copied blocks

---
 python/xoscar/backends/context.py | 14 ++++++++++----
 python/xoscar/backends/pool.py    |  7 +++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index c7f4a67..8a383f6 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -371,6 +371,12 @@ class IndigenActorContext(BaseActorContext):
             raise RuntimeError("Cannot run `copy_to` when enabling proxy")
         return await self._get_copy_to_client(router, address)
 
+    async def _copy_block(self, client: Client, message: _MessageBase):
+        # raise if the receiver failed to store the block
+        return self._process_result_message(
+            await self._call_with_client(client, message)  # type: ignore
+        )
+
     async def copy_to_buffers(
         self,
         local_buffers: list,
@@ -406,7 +412,7 @@ class IndigenActorContext(BaseActorContext):
                     one_block_data.append(
                         (r_buf.address, r_buf.uid, last_start, remain, l_buf[:remain])
                     )
-                    await self._call_with_client(
+                    await self._copy_block(
                         client, self._gen_copy_to_buffers_message(one_block_data)
                     )
                     one_block_data = []
@@ -421,7 +427,7 @@ class IndigenActorContext(BaseActorContext):
                     current_buf_size = len(l_buf)
 
             if one_block_data:
-                await self._call_with_client(
+                await self._copy_block(
                     client, self._gen_copy_to_buffers_message(one_block_data)
                 )
 
@@ -446,7 +452,7 @@ class IndigenActorContext(BaseActorContext):
                     current_file_size += len(file_data)
                     if current_file_size >= block_size:
                         message = self._gen_copy_to_fileobjs_message(one_block_data)
-                        await self._call_with_client(client, message)
+                        await self._copy_block(client, message)
                         one_block_data.clear()
                         current_file_size = 0
                 else:
@@ -454,5 +460,5 @@ class IndigenActorContext(BaseActorContext):
 
         if current_file_size > 0:
             message = self._gen_copy_to_fileobjs_message(one_block_data)
-            await self._call_with_client(client, message)
+            await self._copy_block(client, message)
             one_block_data.clear()
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index f8e6501..a2f52f5 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -527,6 +527,13 @@ class AbstractActorPool(ABC):
     async def handle_copy_to_buffers_message(self, message) -> ResultMessage:
         for addr, uid, start, _len, data in message.content:
             buffer = BufferRef.get_buffer(BufferRef(addr, uid))
+            if start + _len > len(buffer):
+                raise ValueError(
+                    f"Cannot store {start + _len} items in a buffer of {len(buffer)} items"
+                )
+            if isinstance(data, bytes):
+                # arrays would take bytes for a scalar
+                data = memoryview(data)
             buffer[start : start + _len] = data
         return ResultMessage(message_id=message.message_id, result=True)
 
-- 
2.43.0


From b9e62e8e9802656bd5433a51dc14292e9e339ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:50 +0000
Subject: [PATCH 22/35] fix: compute again what was cancelled in alru_cache

---
 python/xoscar/aio/lru.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/xoscar/aio/lru.py b/python/xoscar/aio/lru.py
index 2cdf207..05c5324 100644
--- a/python/xoscar/aio/lru.py
+++ b/python/xoscar/aio/lru.py
@@ -182,13 +182,14 @@ def alru_cache(
                     _cache_hit(wrapped, key)
                     return await asyncio.shield(fut)
 
-                exc = fut._exception
-
-                if exc is None or cache_exceptions:
+                # a cancelled computation has no outcome to be kept
+                if not fut.cancelled() and (
+                    fut.exception() is None or cache_exceptions
+                ):
                     _cache_hit(wrapped, key)
                     return fut.result()
 
-                # exception here and cache_exceptions == False
+                # cancelled, or exception here and cache_exceptions == False
                 wrapped._cache.pop(key)
 
             fut = loop.create_future()
-- 
2.43.0


From 782041d5afc67784eea30346cb1568bbb33ca70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:50 +0000
Subject: [PATCH 23/35] fix: make look-ups of TypeDispatcher independent of
 earlier ones

---
 python/xoscar/_utils.pxd |  2 ++
 python/xoscar/_utils.pyx | 45 ++++++++++++++++++++++++++++++----------
 2 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/python/xoscar/_utils.pxd b/python/xoscar/_utils.pxd
index 63506bf..05b35c3 100644
--- a/python/xoscar/_utils.pxd
+++ b/python/xoscar/_utils.pxd
@@ -21,6 +21,8 @@ cdef class TypeDispatcher:
 
     cpdef void register(self, object type_, object handler)
     cpdef void unregister(self, object type_)
+    cdef _find_imported(self, str name)
+    cdef _load_imported(self)
     cdef _reload_lazy_handlers(self)
     cpdef get_handler(self, object type_)
 
diff --git a/python/xoscar/_utils.pyx b/python/xoscar/_utils.pyx
index d573355..91cd881 100644
--- a/python/xoscar/_utils.pyx
+++ b/python/xoscar/_utils.pyx
@@ -17,6 +17,7 @@
 import collections
 import importlib
 import itertools
+import sys
 import time
 import warnings
 from functools import partial
@@ -48,32 +49,54 @@ cdef class TypeDispatcher:
     cpdef void register(self, object type_, object handler):
         if isinstance(type_, str):
             self._lazy_handlers[type_] = handler
+            self._load_imported()
         elif type(type_) is not NamedType and isinstance(type_, tuple):
             for t in type_:
                 self.register(t, handler)
         else:
+            # what was registered lazily before comes first
+            self._load_imported()
             self._handlers[type_] = handler
+            self._inherit_handlers.clear()
 
     cpdef void unregister(self, object type_):
         if type(type_) is not NamedType and isinstance(type_, tuple):
             for t in type_:
                 self.unregister(t)
         else:
-            self._lazy_handlers.pop(type_, None)
+            self._load_imported()
+            if isinstance(type_, str) and self._lazy_handlers.pop(type_, None) is None:
+                type_ = self._find_imported(type_)
             self._handlers.pop(type_, None)
             self._inherit_handlers.clear()
 
+    cdef _find_imported(self, str name):
+        # the type with the given name if its module is imported already
+        mod_name, obj_name = name.rsplit('.', 1)
+        return getattr(sys.modules.get(mod_name), obj_name, None)
+
+    cdef _load_imported(self):
+        for k in list(self._lazy_handlers):
+            type_ = self._find_imported(k)
+            if type_ is not None:
+                self._handlers[type_] = self._lazy_handlers.pop(k)
+                self._inherit_handlers.clear()
+
     cdef _reload_lazy_handlers(self):
-        for k, v in self._lazy_handlers.items():
-            mod_name, obj_name = k.rsplit('.', 1)
-            with warnings.catch_warnings():
-                # the lazy imported cudf will warn no device found,
-                # when we set visible device to -1 for CPU processes,
-                # ignore the warning to not distract users
-                warnings.simplefilter("ignore")
-                mod = importlib.import_module(mod_name, __name__)
-            self.register(getattr(mod, obj_name), v)
-        self._lazy_handlers = dict()
+        self._load_imported()
+        for k in list(self._lazy_handlers):
+            mod_name = k.rsplit('.', 1)[0]
+            try:
+                with warnings.catch_warnings():
+                    # the lazy imported cudf will warn no device found,
+                    # when we set visible device to -1 for CPU processes,
+                    # ignore the warning to not distract users
+                    warnings.simplefilter("ignore")
+                    importlib.import_module(mod_name, __name__)
+            except ImportError:
+                # not importable, so there are no objects of this type yet
+                pass
+        self._load_imported()
 
     cpdef get_handler(self, object type_):
         try:
-- 
2.43.0


From c5b0fd46101136e4535a234b8b6ad5be69751ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:03 +0000
Subject: [PATCH 24/35] fix: interpret wildcard addresses, retries and wrapped
 exceptions consistently

---
 python/xoscar/backends/context.py |  7 ++++++-
 python/xoscar/backends/pool.py    | 23 ++++++++++++++++++++---
 python/xoscar/utils.py            | 26 +++++++++++++++++++-------
 3 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index 8a383f6..7be5490 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -157,7 +157,10 @@ class IndigenActorContext(BaseActorContext):
         )
         future = await self._call(address, create_actor_message, wait=False)
         result = await self._wait(future, address, create_actor_message)  # type: ignore
-        return self._process_result_message(result)
+        res = self._process_result_message(result)
+        if res.address != address:
+            res.address = fix_all_zero_ip(res.address, address)
+        return res
 
     async def has_actor(self, actor_ref: ActorRef) -> bool:
         message = HasActorMessage(
@@ -201,6 +204,7 @@ class IndigenActorContext(BaseActorContext):
         main_address = self._process_result_message(
             await self._call(actor_ref.address, control_message, proxy_addresses=actor_ref.proxy_addresses)  # type: ignore
         )
+        main_address = fix_all_zero_ip(main_address, actor_ref.address)
         real_actor_ref = await self.actor_ref(actor_ref)
         if real_actor_ref.address == main_address:
             raise ValueError("Cannot kill actor on main pool")
@@ -306,6 +310,7 @@ class IndigenActorContext(BaseActorContext):
             main_address = self._process_result_message(
                 await self._call(address, control_message)  # type: ignore
             )
+            main_address = fix_all_zero_ip(main_address, address)
 
         # if address is main pool, it is never recovered
         if address == main_address:
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index a2f52f5..579c8ea 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -42,7 +42,12 @@ from ..errors import (
     ServerClosed,
 )
 from ..metrics import init_metrics
-from ..utils import implements, is_zero_ip, register_asyncio_task_timeout_detector
+from ..utils import (
+    fix_all_zero_ip,
+    implements,
+    is_zero_ip,
+    register_asyncio_task_timeout_detector,
+)
 from .allocate_strategy import AddressSpecified, allocated_type
 from .communication import (
     Channel,
@@ -1096,6 +1101,14 @@ class MainActorPoolBase(ActorPoolBase):
             )
             return await call
 
+    def _get_pool_address(self, address: str) -> str:
+        # clients know a pool that listens on a wildcard address by another one
+        if address not in self._allocated_actors:
+            for pool_address in self._allocated_actors:
+                if fix_all_zero_ip(pool_address, address) == address:
+                    return pool_address
+        return address
+
     @implements(AbstractActorPool.create_actor)
     async def create_actor(self, message: CreateActorMessage) -> ResultMessageType:
         with _ErrorProcessor(
@@ -1106,8 +1119,10 @@ class MainActorPoolBase(ActorPoolBase):
             allocate_strategy = message.allocate_strategy
             with self._allocation_lock:
                 # get allocated address according to corresponding strategy
-                address = allocate_strategy.get_allocated_address(
-                    self._config, self._allocated_actors
+                address = self._get_pool_address(
+                    allocate_strategy.get_allocated_address(
+                        self._config, self._allocated_actors
+                    )
                 )
                 # set placeholder to make sure this label is occupied
                 allocated = self._allocated_actors[address]
@@ -1276,6 +1291,7 @@ class MainActorPoolBase(ActorPoolBase):
 
     @implements(AbstractActorPool.cancel)
     async def cancel(self, message: CancelMessage) -> ResultMessageType:
+        message.address = self._get_pool_address(message.address)
         if message.address == self.external_address:
             # local message
             return await super().cancel(message)
@@ -1289,6 +1305,7 @@ class MainActorPoolBase(ActorPoolBase):
         with _ErrorProcessor(
             self.external_address, message.message_id, message.protocol
         ) as processor:
+            message.address = self._get_pool_address(message.address)
             if message.address == self.external_address:
                 if message.control_message_type == ControlMessageType.sync_config:
                     # sync config, need to notify all sub pools
diff --git a/python/xoscar/utils.py b/python/xoscar/utils.py
index 2fe2ed8..44f0606 100644
--- a/python/xoscar/utils.py
+++ b/python/xoscar/utils.py
@@ -118,7 +118,13 @@ def wrap_exception(
         return getattr(exc, item)
 
     def __str__(self):
-        return message or super(type(self), self).__str__()
+        if message:
+            return message
+        for base in bases:
+            if base.__str__ not in (object.__str__, BaseException.__str__):
+                return base.__str__(self)
+        # the text need not be made of args only
+        return str(exc)
 
     def __reduce__(self):
         # the class of the wrapped exception may customize its pickling,
@@ -461,12 +467,16 @@ def retry_callable(
         @functools.wraps(callable)
         async def retry_call(*args, **kwargs):
             num_retried = 0
+            ex = None
             while max_retries < 0 or num_retried < max_retries:
                 num_retried += 1
                 try:
                     return await callable_(*args, **kwargs)
-                except ex_type:
+                except ex_type as e:
+                    ex = e
                     await asyncio.sleep(wait_interval)
+            assert ex is not None
+            raise ex  # pylint: disable-msg=E0702
 
     else:
 
@@ -523,9 +533,9 @@ def is_v6_zero_ip(ip_port_addr: str) -> bool:
     if len(arr) <= 2:  # Not tcp6 or udp6
         return False
     for part in arr[0:-1]:
-        if part != "":
-            if int(part, 16) != 0:
-                return False
+        # parts may also be an embedded IPv4 address or carry a zone
+        if part.replace("0", "") not in ("", "..."):
+            return False
     return True
 
 
@@ -556,5 +566,7 @@ def fix_all_zero_ip(remote_addr: str, connect_addr: str) -> str:
         # Client connect to local server
         return remote_addr
     remote_port = remote_addr.split(":")[-1]
-    connect_ip = ":".join(connect_addr.split(":")[0:-1])  # Remote the port
-    return f"{connect_ip}:{remote_port}"
+    # Remove scheme and port
+    connect_ip = ":".join(connect_addr.split("://")[-1].split(":")[0:-1])
+    scheme = remote_addr[: remote_addr.rfind("://") + 3] if "://" in remote_addr else ""
+    return f"{scheme}{connect_ip}:{remote_port}"
-- 
2.43.0


From 076c71a9a421c8313c4d4a0efc32c58deaada2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:03 +0000
Subject: [PATCH 25/35] fix: report failed copies to the peer's buffers over
 the copy channel

---
 python/xoscar/backends/context.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index 7be5490..50e36c6 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -392,10 +392,12 @@ class IndigenActorContext(BaseActorContext):
         client = await self._get_client(address)
         if isinstance(client, UCXClient):
             message = [(buf.address, buf.uid) for buf in remote_buffer_refs]
-            await self._call_send_buffers(
-                client,
-                local_buffers,
-                self._gen_switch_to_copy_to_control_message(message),
+            self._process_result_message(
+                await self._call_send_buffers(  # type: ignore
+                    client,
+                    local_buffers,
+                    self._gen_switch_to_copy_to_control_message(message),
+                )
             )
         else:
             # ``local_buffers`` will be divided into buffers of the specified block size for transmission.
-- 
2.43.0


From 53b695863a6765d4170dad595196373505274e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 26/35] fix: keep the file of an AioFileObject after its
 context

---
 python/xoscar/aio/file.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/python/xoscar/aio/file.py b/python/xoscar/aio/file.py
index 31afd01..38e3131 100644
--- a/python/xoscar/aio/file.py
+++ b/python/xoscar/aio/file.py
@@ -56,4 +56,3 @@ class AioFileObject(AioBase):
 
     async def __aexit__(self, exc_type, exc_val, exc_tb):
         await self.close()
-        self._file = None
-- 
2.43.0


From 54f0d8d6f6a5dba32235ab6019fee2af3b7fe6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 27/35] fix: count measurements, labels and bands exactly

---
 python/xoscar/backends/core.py                | 17 ++++++++-
 python/xoscar/metrics/api.py                  | 17 ++++++---
 .../backends/prometheus/prometheus_metric.py  |  3 +-
 python/xoscar/profiling.py                    | 37 ++++++++++++-------
 4 files changed, 53 insertions(+), 21 deletions(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index d8f869c..a091594 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -20,6 +20,7 @@ import atexit
 import copy
 import logging
 import threading
+import time
 import weakref
 from typing import Type, Union
 
@@ -32,6 +33,7 @@ from .message import (
     ErrorMessage,
     ForwardMessage,
     ResultMessage,
+    SendMessage,
     _MessageBase,
 )
 from .router import Router
@@ -168,7 +170,20 @@ class ActorCallerThreadLocal:
             else:
                 r = await wait_response
 
-        self._profiling_data.collect_actor_call(message, timer.duration)
+        if (
+            wait_response.done()
+            or type(message) is not SendMessage
+            or not self._profiling_data.collects_actor_calls
+        ):
+            self._profiling_data.collect_actor_call(message, timer.duration)
+        else:
+            # the response is awaited by the caller, the call lasts until then
+            start = time.time() - timer.duration
+            wait_response.add_done_callback(
+                lambda _: self._profiling_data.collect_actor_call(
+                    message, time.time() - start
+                )
+            )
         return r
 
     async def call_send_buffers(
diff --git a/python/xoscar/metrics/api.py b/python/xoscar/metrics/api.py
index 72c95f4..580b8d5 100644
--- a/python/xoscar/metrics/api.py
+++ b/python/xoscar/metrics/api.py
@@ -273,16 +273,21 @@ class PercentileArg(NamedTuple):
     window: int
 
 
-@contextmanager
 def record_time_cost_percentile(percentile_args: list[PercentileArg]):
     percentile_list = [
         _percentile_builder[percentile_type](callback, window)
         for percentile_type, callback, window in percentile_args
     ]
-    st_time = time.time()
 
-    yield
+    @contextmanager
+    def recorder():
+        st_time = time.time()
 
-    cost_time = time.time() - st_time
-    for percentile in percentile_list:
-        percentile.record_data(cost_time)
+        yield
+
+        cost_time = time.time() - st_time
+        for percentile in percentile_list:
+            percentile.record_data(cost_time)
+
+    # as a decorator, all calls go to the same windows
+    return recorder()
diff --git a/python/xoscar/metrics/backends/prometheus/prometheus_metric.py b/python/xoscar/metrics/backends/prometheus/prometheus_metric.py
index e5eaa38..3165c2a 100644
--- a/python/xoscar/metrics/backends/prometheus/prometheus_metric.py
+++ b/python/xoscar/metrics/backends/prometheus/prometheus_metric.py
@@ -48,7 +48,8 @@ class PrometheusMetricMixin(AbstractMetric):
     def _record(self, value=1, tags: Optional[Dict[str, str]] = None):
         if self._metric:
             if tags is not None:
-                tags.update(self._tags)
+                # do not touch the dict of the caller
+                tags = {**tags, **self._tags}
             else:
                 tags = self._tags
             self._metric.labels(**tags).set(value)
diff --git a/python/xoscar/profiling.py b/python/xoscar/profiling.py
index b6ec15c..1993fc3 100644
--- a/python/xoscar/profiling.py
+++ b/python/xoscar/profiling.py
@@ -16,6 +16,7 @@
 import asyncio
 import copy
 import heapq
+import itertools
 import json
 import logging
 import operator
@@ -23,7 +24,7 @@ import os
 from collections import Counter
 from collections.abc import Mapping
 
-from .backends.message import SendMessage, TellMessage
+from .backends.message import ForwardMessage, SendMessage, TellMessage
 
 logger = logging.getLogger(__name__)
 
@@ -62,7 +63,7 @@ class _ProfilingOptionsMeta(type):
 
 class _ProfilingOptions(metaclass=_ProfilingOptionsMeta):
     debug_interval_seconds = _ProfilingOptionDescriptor(float, default=None)
-    slow_calls_duration_threshold = _ProfilingOptionDescriptor(int, default=1)
+    slow_calls_duration_threshold = _ProfilingOptionDescriptor(float, default=1)
 
     def __init__(self, options):
         if isinstance(options, Mapping):
@@ -134,6 +135,8 @@ class _CallStats:
         self._options = options
         self._call_counter = Counter()
         self._slow_calls = []
+        # calls of the same duration are never compared themselves
+        self._slow_call_counter = itertools.count()
 
     def collect(self, message, duration: float):
         key = (message.actor_ref.uid, message.content[0])
@@ -142,17 +145,16 @@ class _CallStats:
             return
         slow_call_key = (
             duration,
+            next(self._slow_call_counter),
             message.actor_ref.uid,
             message.actor_ref.address,
             message.content,
         )
-        try:
-            if len(self._slow_calls) < 10:
-                heapq.heappush(self._slow_calls, slow_call_key)
-            else:
-                heapq.heapreplace(self._slow_calls, slow_call_key)
-        except TypeError:
-            pass
+        if len(self._slow_calls) < 10:
+            heapq.heappush(self._slow_calls, slow_call_key)
+        else:
+            # keep the slowest ones
+            heapq.heappushpop(self._slow_calls, slow_call_key)
 
     def to_dict(self) -> dict:
         most_calls = {}
@@ -160,13 +162,15 @@ class _CallStats:
             uid, method_name = name_tuple
             most_calls[f"{uid.decode('utf-8')}.{method_name}"] = count
         slow_calls = {}
-        for duration, uid, address, content in sorted(
+        for duration, _, uid, address, content in sorted(
             self._slow_calls, key=operator.itemgetter(0), reverse=True
         ):
             method_name, _batch, args, kwargs = content
-            slow_calls[
-                f"[{address}]{uid.decode('utf-8')}.{method_name}(args={args}, kwargs={kwargs})"
-            ] = duration
+            # equal calls are reported once, with the longest duration
+            slow_calls.setdefault(
+                f"[{address}]{uid.decode('utf-8')}.{method_name}(args={args}, kwargs={kwargs})",
+                duration,
+            )
         return {"most_calls": most_calls, "slow_calls": slow_calls}
 
 
@@ -233,8 +237,15 @@ class _ProfilingData:
             r.update(self._call_stats.pop(task_id).to_dict())
         return r
 
+    @property
+    def collects_actor_calls(self) -> bool:
+        return bool(self._call_stats)
+
     def collect_actor_call(self, message, duration: float):
         if self._call_stats:
+            if type(message) is ForwardMessage:
+                # sent via a proxy
+                message = message.raw_message
             message_type = type(message)
             if message_type is SendMessage or message_type is TellMessage:
                 for stats in self._call_stats.values():
-- 
2.43.0


From 2fc0c87fc802490a2dfc08b099c9d77a39596b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 28/35] fix: evaluate markers of requirements as PEP 508 says

---
 python/xoscar/virtualenv/core.py | 75 ++++++++++++++++++++++++--------
 python/xoscar/virtualenv/uv.py   | 66 +++++++++++++++++-----------
 2 files changed, 99 insertions(+), 42 deletions(-)

diff --git a/python/xoscar/virtualenv/core.py b/python/xoscar/virtualenv/core.py
index 709eacd..9626424 100644
--- a/python/xoscar/virtualenv/core.py
+++ b/python/xoscar/virtualenv/core.py
@@ -18,12 +18,13 @@ import ast
 import importlib
 import json
 import operator
+import re
 from abc import ABC, abstractmethod
 from pathlib import Path
 
 from packaging.markers import Marker, default_environment
 from packaging.requirements import InvalidRequirement, Requirement
-from packaging.version import Version
+from packaging.version import InvalidVersion, Version
 
 from .platform import (
     check_cuda_available,
@@ -137,12 +138,11 @@ def substitute_variables(marker_str: str, variables: dict) -> str:
     Returns:
         Marker string with placeholders replaced
     """
-    result = marker_str
 
-    for var_name, var_value in variables.items():
-        placeholder = f"#{var_name}#"
-        if placeholder not in result:
-            continue
+    def replace(match: re.Match) -> str:
+        if match.group(1) not in variables:
+            return match.group(0)
+        var_value = variables[match.group(1)]
 
         # Format value based on type
         if var_value is None:
@@ -154,11 +154,11 @@ def substitute_variables(marker_str: str, variables: dict) -> str:
             formatted = str(var_value)
         else:
             # String: escape and add quotes
-            formatted = json.dumps(var_value)
+            formatted = json.dumps(var_value, ensure_ascii=False)
+        return formatted
 
-        result = result.replace(placeholder, formatted)
-
-    return result
+    # replace in one pass, values must not be taken for placeholders again
+    return re.sub(r"#(\w+)#", replace, marker_str)
 
 
 def get_env() -> dict[str, str | bool]:
@@ -208,6 +208,8 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
         ast.And: lambda a, b: a and b,
         ast.Or: lambda a, b: a or b,
         ast.Not: operator.not_,
+        ast.In: lambda a, b: a in b,
+        ast.NotIn: lambda a, b: a not in b,
     }
 
     def normalize_value(val):
@@ -227,6 +229,14 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
 
         return val
 
+    def maybe_parse_version(val):
+        if isinstance(val, (str, int, float)) and not isinstance(val, bool):
+            try:
+                return Version(str(val))
+            except InvalidVersion:
+                return val
+        return val
+
     def maybe_parse_cuda_arch(val):
         if isinstance(val, str) and val.startswith("sm_"):
             try:
@@ -235,6 +245,30 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
                 return val
         return val
 
+    def compare(op_node, left, right):
+        if isinstance(op_node, (ast.In, ast.NotIn)):
+            # substring test of the plain strings
+            if right is None:
+                return isinstance(op_node, ast.NotIn)
+            return ops[type(op_node)](left, right)
+        left = maybe_parse_cuda_arch(normalize_value(left))
+        right = maybe_parse_cuda_arch(normalize_value(right))
+        if not isinstance(op_node, (ast.Eq, ast.NotEq)) and (
+            left is None or right is None
+        ):
+            # e.g. cuda_version without CUDA, not ordered with any version
+            return False
+        # "12" compared with a version is a version too
+        if isinstance(left, Version) and not isinstance(right, Version):
+            right = maybe_parse_version(right)
+        elif isinstance(right, Version) and not isinstance(left, Version):
+            left = maybe_parse_version(left)
+        return ops[type(op_node)](left, right)
+
+    def operand(node):
+        # compare normalizes by itself
+        return env.get(node.id) if isinstance(node, ast.Name) else _eval(node)
+
     def _eval(node):
         if isinstance(node, ast.BoolOp):
             left = _eval(node.values[0])
@@ -247,16 +281,22 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
         elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
             return not _eval(node.operand)
 
+        elif (
+            isinstance(node, ast.UnaryOp)
+            and isinstance(node.op, ast.USub)
+            and isinstance(node.operand, ast.Constant)
+            and isinstance(node.operand.value, (int, float))
+        ):
+            # negative number
+            return -node.operand.value
+
         elif isinstance(node, ast.Compare):
-            left = _eval(node.left)
-            left = maybe_parse_cuda_arch(normalize_value(left))
+            left = operand(node.left)
 
             for op_node, right_expr in zip(node.ops, node.comparators):
-                right = _eval(right_expr)
-                right = maybe_parse_cuda_arch(normalize_value(right))
+                right = operand(right_expr)
 
-                op_func = ops[type(op_node)]
-                if not op_func(left, right):
+                if not compare(op_node, left, right):
                     return False
                 left = right  # for chained comparisons
 
@@ -302,7 +342,8 @@ def filter_requirements(requirements: list[str], **variables) -> list[str]:
             try:
                 req = Requirement(req_str)
                 if req.marker is None or req.marker.evaluate(env):
-                    result.append(f"{req.name}{req.specifier}")
+                    req.marker = None
+                    result.append(str(req))
                     continue
             except InvalidRequirement:
                 if is_custom_marker(marker_part):
diff --git a/python/xoscar/virtualenv/uv.py b/python/xoscar/virtualenv/uv.py
index 46ef777..ecced90 100644
--- a/python/xoscar/virtualenv/uv.py
+++ b/python/xoscar/virtualenv/uv.py
@@ -27,6 +27,7 @@ from pathlib import Path
 from typing import Optional
 
 from packaging.requirements import Requirement
+from packaging.utils import canonicalize_name
 from packaging.version import Version
 
 from .core import VirtualEnvManager
@@ -115,7 +116,10 @@ class UVVirtualEnvManager(VirtualEnvManager):
         subprocess.run(cmd, check=True)
 
     def _resolve_install_plan(
-        self, specs: list[str], pinned: dict[str, str]
+        self,
+        specs: list[str],
+        pinned: dict[str, str],
+        options: Optional[list[str]] = None,
     ) -> list[str]:
         """
         Run uv --dry-run with pinned constraints and return
@@ -136,6 +140,7 @@ class UVVirtualEnvManager(VirtualEnvManager):
                 "--constraint",
                 f.name,
                 *specs,
+                *(options or []),
             ]
             result = subprocess.run(cmd, check=True, text=True, capture_output=True)
 
@@ -168,7 +173,12 @@ class UVVirtualEnvManager(VirtualEnvManager):
                 continue
 
             req = Requirement(spec_str)
-            name = req.name.lower()
+            if req.url:
+                # version at the URL is unknown, same as git+xxx
+                keep.append(spec_str)
+                continue
+
+            name = canonicalize_name(req.name)
             cur_ver = installed.get(name)
 
             if cur_ver is None:
@@ -194,14 +204,16 @@ class UVVirtualEnvManager(VirtualEnvManager):
 
         return keep, to_resolve, pinned
 
-    def _filter_packages_not_installed(self, packages: list[str]) -> list[str]:
+    def _filter_packages_not_installed(
+        self, packages: list[str], options: Optional[list[str]] = None
+    ) -> list[str]:
         """
         Filter out packages that are already installed with the same version.
         """
 
         # all the installed packages in system site packages
         installed = {
-            dist.metadata["Name"].lower(): dist.version
+            canonicalize_name(dist.metadata["Name"]): dist.version
             for dist in distributions()
             if dist.metadata and "Name" in dist.metadata
         }
@@ -213,7 +225,7 @@ class UVVirtualEnvManager(VirtualEnvManager):
             return []
 
         if to_resolve:
-            resolved = self._resolve_install_plan(to_resolve, pinned)
+            resolved = self._resolve_install_plan(to_resolve, pinned, options)
             logger.debug(f"Resolved install list: {resolved}")
             if not keep and not resolved:
                 # no packages to install
@@ -224,7 +236,7 @@ class UVVirtualEnvManager(VirtualEnvManager):
         final = keep.copy()
         for item in resolved:
             name, version = item.split("==")
-            key = name.lower()
+            key = canonicalize_name(name)
             if key not in installed or installed[key] != version:
                 final.append(item)
         logger.debug(f"Filtered install list: {final}")
@@ -255,8 +267,29 @@ class UVVirtualEnvManager(VirtualEnvManager):
 
         uv_path = self._get_uv_path()
 
+        options: list[str] = []
+        if "index_url" in kwargs and kwargs["index_url"]:
+            options += ["-i", kwargs["index_url"]]
+        param_and_option = [
+            ("extra_index_url", "--extra-index-url"),
+            ("find_links", "-f"),
+            ("trusted_host", "--trusted-host"),
+        ]
+        for param, option in param_and_option:
+            if param in kwargs and kwargs[param]:
+                val = kwargs[param]
+                options += (
+                    [option, val]
+                    if isinstance(val, str)
+                    else [opt for v in val for opt in (option, v)]
+                )
+
+        if kwargs.get("no_build_isolation", False):
+            options += ["--no-build-isolation"]
+
         if skip_installed:
-            packages = self._filter_packages_not_installed(packages)
+            # resolve with the same options as install
+            packages = self._filter_packages_not_installed(packages, options)
             if not packages:
                 logger.info("All required packages are already installed.")
                 return
@@ -280,24 +313,7 @@ class UVVirtualEnvManager(VirtualEnvManager):
                 "--color=always",
             ] + packages
 
-        if "index_url" in kwargs and kwargs["index_url"]:
-            cmd += ["-i", kwargs["index_url"]]
-        param_and_option = [
-            ("extra_index_url", "--extra-index-url"),
-            ("find_links", "-f"),
-            ("trusted_host", "--trusted-host"),
-        ]
-        for param, option in param_and_option:
-            if param in kwargs and kwargs[param]:
-                val = kwargs[param]
-                cmd += (
-                    [option, val]
-                    if isinstance(val, str)
-                    else [opt for v in val for opt in (option, v)]
-                )
-
-        if kwargs.get("no_build_isolation", False):
-            cmd += ["--no-build-isolation"]
+        cmd += options
 
         logger.info("Installing packages via command: %s", cmd)
         if not log:
-- 
2.43.0


From 07c34624bcec4cbf4f0e3c06590f4c568bcdae18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 29/35] fix: heed no_lock on top of extensible

---
 python/xoscar/batch.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/batch.py b/python/xoscar/batch.py
index 30bbab3..4585d9b 100644
--- a/python/xoscar/batch.py
+++ b/python/xoscar/batch.py
@@ -283,7 +283,8 @@ class _ExtensibleAccessor(_ExtensibleCallable):
         )
 
         if (
-            getattr(self.func, NO_LOCK_ATTRIBUTE_HINT, None) is True
+            getattr(self, NO_LOCK_ATTRIBUTE_HINT, None) is True
+            or getattr(self.func, NO_LOCK_ATTRIBUTE_HINT, None) is True
             or getattr(self.batch_func, NO_LOCK_ATTRIBUTE_HINT, None) is True
         ):
             setattr(wrapper, NO_LOCK_ATTRIBUTE_HINT, True)
-- 
2.43.0


From 055aadecc4812821c4c009e77986cd7f6a8dc388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:10 +0000
Subject: [PATCH 30/35] fix: trace calls in debug mode by what actors wait for

---
 python/xoscar/backends/pool.py |  7 +++++-
 python/xoscar/core.pyx         | 39 +++++++++++++++---------------
 python/xoscar/debug.py         | 43 +++++++++++++++++++++++++---------
 3 files changed, 58 insertions(+), 31 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 579c8ea..40654eb 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -33,7 +33,11 @@ import psutil
 from .._utils import TypeDispatcher, create_actor_ref, to_binary
 from ..api import Actor
 from ..core import ActorRef, BufferRef, FileObjectRef, register_local_pool
-from ..debug import debug_async_timeout, record_message_trace
+from ..debug import (
+    debug_async_timeout,
+    detect_cycle_forward,
+    record_message_trace,
+)
 from ..errors import (
     ActorAlreadyExist,
     ActorNotExist,
@@ -1228,6 +1232,7 @@ class MainActorPoolBase(ActorPoolBase):
             protocol=message.protocol,
             message_trace=message.message_trace,
         )
+        detect_cycle_forward(new_send_message, message)
         try:
             return await self.call(actor_ref.address, new_send_message)
         except asyncio.CancelledError:
diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index 13c1dce..2acaf3a 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -38,6 +38,7 @@ logger = logging.getLogger(__name__)
 cdef:
     bint _log_unhandled_errors = False
     bint _log_cycle_send = False
+    bint _debug_enabled = False
     dict _local_pool_map = dict()
     object _actor_method_wrapper
 
@@ -47,7 +48,8 @@ def no_lock(func: Callable):
 
 
 def set_debug_options(options):
-    global _log_unhandled_errors, _log_cycle_send
+    global _log_unhandled_errors, _log_cycle_send, _debug_enabled
+    _debug_enabled = options is not None
     if options is None:
         _log_unhandled_errors = _log_cycle_send = False
     else:
@@ -59,9 +61,9 @@ cdef _get_local_actor(address, uid):
     # Do not expose this method to Python to avoid actor being
     # referenced everywhere.
     #
-    # The cycle send detection relies on send message, so we
-    # disabled the local actor proxy if the debug option is on.
-    if _log_cycle_send:
+    # The cycle send detection and the timeout reports rely on send
+    # message, so we disabled the local actor proxy if debug is on.
+    if _debug_enabled:
         return None
     pool_ref = _local_pool_map.get(address)
     pool = None if pool_ref is None else pool_ref()
@@ -508,9 +510,8 @@ cdef class _BaseActor:
         cdef bint lock_held = False
         cdef bint started = False
         cdef object res
-        cdef object message_trace = None, pop_message_trace = None, set_message_trace = None
 
-        from .debug import debug_async_timeout, pop_message_trace, set_message_trace
+        from .debug import debug_async_timeout, hold_message_trace, release_message_trace
         try:
             res = None
             while True:
@@ -518,12 +519,16 @@ cdef class _BaseActor:
                 try:
                     async with self._lock:
                         lock_held = True
-                        with debug_async_timeout('actor_lock_timeout',
-                                                 'async_generator %r hold lock timeout', gen):
-                            if not is_exception:
-                                res = await gen.asend(res)
-                            else:
-                                res = await gen.athrow(*res)
+                        hold_message_trace()
+                        try:
+                            with debug_async_timeout('actor_lock_timeout',
+                                                     'async_generator %r hold lock timeout', gen):
+                                if not is_exception:
+                                    res = await gen.asend(res)
+                                else:
+                                    res = await gen.athrow(*res)
+                        finally:
+                            release_message_trace()
                 except asyncio.CancelledError:
                     if lock_held or not started:
                         raise
@@ -534,17 +539,11 @@ cdef class _BaseActor:
                     continue
                 started = True
                 try:
-                    if _log_cycle_send:
-                        message_trace = pop_message_trace()
-
                     res = await self._handle_actor_result(res)
                     is_exception = False
                 except:
                     res = sys.exc_info()
                     is_exception = True
-                finally:
-                    if _log_cycle_send:
-                        set_message_trace(message_trace)
         except Return as ex:
             return ex.value
         except StopAsyncIteration as ex:
@@ -571,7 +570,7 @@ cdef class _BaseActor:
         message : tuple
             Message shall be (method_name,) + args + (kwargs,)
         """
-        from .debug import debug_async_timeout
+        from .debug import debug_async_timeout, release_message_trace
         try:
             method, call_method, args, kwargs = message
             if call_method == CALL_METHOD_DEFAULT:
@@ -611,6 +610,8 @@ cdef class _BaseActor:
             else:  # pragma: no cover
                 raise ValueError(f'call_method {call_method} not valid')
 
+            # what the result is made of is awaited without the lock
+            release_message_trace()
             if call_method == CALL_METHOD_BATCH:
                 return await self._handle_batch_result(result)
             return await self._handle_actor_result(result)
diff --git a/python/xoscar/debug.py b/python/xoscar/debug.py
index 3372c80..3264685 100644
--- a/python/xoscar/debug.py
+++ b/python/xoscar/debug.py
@@ -34,6 +34,8 @@ class MessageTraceItem:
     uid: str
     address: str
     method: str
+    # the actor waits for something the method has yielded or returned
+    released: bool = False
 
 
 @dataslots
@@ -131,6 +133,8 @@ def record_message_trace(message):
         try:
             yield
         finally:
+            # tasks created by the method may still be running
+            msg_trace.clear()
             _message_trace_var.set(None)
 
 
@@ -139,8 +143,23 @@ def detect_cycle_send(message, wait_response: bool = True):
         return
 
     cur_trace = _message_trace_var.get(None) or []  # type: List[MessageTraceItem]
-    message.message_trace = cur_trace
+    message.message_trace = [item for item in cur_trace if not item.released]
+    _warn_cycle(message)
 
+
+def detect_cycle_forward(message, origin_message):
+    """
+    Detect cycle when a message is forwarded to the pool where the actor is.
+    """
+    if _debug_opts is None or not _debug_opts.log_cycle_send:
+        return
+
+    if message.actor_ref.address != origin_message.actor_ref.address:
+        _warn_cycle(message)
+
+
+def _warn_cycle(message):
+    cur_trace = message.message_trace or []  # type: List[MessageTraceItem]
     ref_key = (message.actor_ref.uid, message.actor_ref.address)
     traced_ref_keys = set((item.uid, item.address) for item in cur_trace)
     if ref_key in traced_ref_keys:
@@ -167,22 +186,24 @@ def detect_cycle_send(message, wait_response: bool = True):
 
 @contextmanager
 def no_message_trace():
-    if _debug_opts is None or not _debug_opts.log_cycle_send:
+    release_message_trace()
+    try:
         yield
-    else:
-        trace = pop_message_trace()
-        yield
-        set_message_trace(trace)
+    finally:
+        hold_message_trace()
 
 
-def pop_message_trace():
+def release_message_trace():
+    # the item is shared with tasks that inherited the context
     trace = _message_trace_var.get(None)
-    _message_trace_var.set(None)
-    return trace
+    if trace:
+        trace[-1].released = True
 
 
-def set_message_trace(message_trace):
-    _message_trace_var.set(message_trace)
+def hold_message_trace():
+    trace = _message_trace_var.get(None)
+    if trace:
+        trace[-1].released = False
 
 
 reload_debug_opts_from_env()
-- 
2.43.0


From ad8fc066e954a79c605dd98efcd4fa0745044810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 31/35] fix: end sub pools when the main pool is a zombie or
 its pid is reused

---
 python/xoscar/backends/indigen/pool.py | 14 ++++++++++--
 python/xoscar/backends/pool.py         | 30 +++++++++++++++++++++-----
 2 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index d5a54c9..f9d81b5 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -43,9 +43,15 @@ from ..message import (
     ControlMessage,
     ControlMessageType,
     CreateActorMessage,
+    _MessageBase,
     new_message_id,
 )
-from ..pool import MainActorPoolBase, SubActorPoolBase, _register_message_handler
+from ..pool import (
+    MainActorPoolBase,
+    SubActorPoolBase,
+    _register_message_handler,
+    is_process_alive,
+)
 from . import shared_memory
 from .fate_sharing import create_subprocess_exec
 
@@ -200,11 +206,15 @@ class MainActorPool(MainActorPoolBase):
             main_pool_pid = config["main_pool_pid"]
 
             def _check_ppid():
+                main_process = None
                 while True:
                     try:
                         # We can't simply check if the os.getppid() equals with main_pool_pid,
                         # as the double fork may result in a new process as the parent.
-                        psutil.Process(main_pool_pid)
+                        if main_process is None:
+                            main_process = psutil.Process(main_pool_pid)
+                        if not is_process_alive(main_process):
+                            raise psutil.NoSuchProcess(main_pool_pid)
                     except psutil.NoSuchProcess:
                         logger.error("Exit due to main pool %s exit.", main_pool_pid)
                         os._exit(233)  # Special exit code for debugging.
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 40654eb..6718a5d 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -889,6 +889,12 @@ MainActorPoolType = TypeVar("MainActorPoolType", bound="MainActorPoolBase")
 SubProcessHandle = asyncio.subprocess.Process
 
 
+def is_process_alive(process: psutil.Process) -> bool:
+    # the pid could be taken by another process,
+    # and a process nobody has waited for is dead as well
+    return process.is_running() and process.status() != psutil.STATUS_ZOMBIE
+
+
 class SubActorPoolBase(ActorPoolBase):
     __slots__ = ("_main_address", "_watch_main_pool_task", "_create_message_ids")
     _watch_main_pool_task: Optional[asyncio.Task]
@@ -927,14 +933,28 @@ class SubActorPoolBase(ActorPoolBase):
             self._watch_main_pool_task = None
 
     async def _watch_main_pool(self, main_pool_pid: int):
-        main_process = psutil.Process(main_pool_pid)
+        main_process: psutil.Process | None = None
+
+        def is_main_pool_alive() -> bool:
+            nonlocal main_process
+            if main_process is None:
+                main_process = psutil.Process(main_pool_pid)
+            return is_process_alive(main_process)
+
         while not self.stopped:
             try:
-                await asyncio.to_thread(main_process.status)
+                try:
+                    if not await asyncio.to_thread(is_main_pool_alive):
+                        # main pool died
+                        break
+                except (psutil.NoSuchProcess, ProcessLookupError):
+                    # main pool died
+                    break
+                except Exception:
+                    # failed to look up, which says nothing about the main pool
+                    logger.warning("Check main pool failed", exc_info=True)
                 await asyncio.sleep(0.1)
-                continue
-            except (psutil.NoSuchProcess, ProcessLookupError, asyncio.CancelledError):
-                # main pool died
+            except asyncio.CancelledError:
                 break
 
         if not self.stopped:
-- 
2.43.0


From 091a25c35f314eff39115f2f6364dad997a38450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 32/35] fix: leave no processes behind when creating a pool
 fails or is cancelled

---
 python/xoscar/backends/pool.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 6718a5d..fabf389 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1441,8 +1441,8 @@ class MainActorPoolBase(ActorPoolBase):
                 create_pool_task = asyncio.create_task(
                     cls.start_sub_pool(actor_pool_config, process_index)
                 )
-                await asyncio.sleep(0)
-                # await create_pool_task
+                # do not await here, wait_sub_pools_ready takes care of all tasks
+                # when creation fails or gets cancelled
                 tasks.append(create_pool_task)
                 subpool_process_idxes.append(process_index)
 
@@ -1480,7 +1480,12 @@ class MainActorPoolBase(ActorPoolBase):
                 control_message_type=ControlMessageType.sync_config,
                 content=actor_pool_config,
             )
-            await pool.handle_control_command(control_message)
+            try:
+                await pool.handle_control_command(control_message)
+            except BaseException:
+                # nobody else would stop it and its sub pools
+                await pool.stop()
+                raise
 
         return pool
 
@@ -1781,5 +1786,10 @@ async def create_actor_pool(
             "on_process_recover": on_process_recover,
         }
     )
-    await pool.start()
+    try:
+        await pool.start()
+    except BaseException:
+        # nobody else would stop it and its sub pools
+        await pool.stop()
+        raise
     return pool
-- 
2.43.0


From 0308931129f017beee858a50c4426ce6fb2e7973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 33/35] fix: add and remove sub pools atomically and keep
 bookkeeping in step

---
 python/xoscar/backends/indigen/pool.py | 65 ++++++++++++++++++--------
 python/xoscar/backends/pool.py         | 10 +++-
 2 files changed, 55 insertions(+), 20 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index f9d81b5..27b94cb 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -402,8 +402,7 @@ class MainActorPool(MainActorPoolBase):
             process_index, external_address
         )
 
-        self._config.add_pool_conf(
-            process_index,
+        pool_conf = (
             label,
             internal_address,
             external_address,
@@ -414,22 +413,29 @@ class MainActorPool(MainActorPoolBase):
             _logging_conf,
             kwargs,
         )
+        # nobody may use the sub pool before it is ready, add it to a copy for now
+        new_config = ActorPoolConfig(
+            {
+                **actor_pool_config,
+                "pools": dict(actor_pool_config["pools"]),
+                "mapping": dict(actor_pool_config["mapping"]),
+            }
+        )
+        new_config.add_pool_conf(process_index, *pool_conf)
 
-        try:
-            process, external_addresses = await self._create_sub_pool_from_parent(
-                self._config, process_index, start_python
-            )
-        except BaseException:
-            self._config.remove_pool_config(process_index)
-            raise
+        process, external_addresses = await self._create_sub_pool_from_parent(
+            new_config, process_index, start_python
+        )
         if self._stopped.is_set():
             # stopped while the sub pool was starting, nobody else would stop it
-            self._config.remove_pool_config(process_index)
             await self.kill_sub_pool(process, force=True)
             raise RuntimeError("pool has been stopped, cannot append sub pool")
 
-        self._config.reset_pool_external_address(process_index, external_addresses[0])
+        self._config.add_pool_conf(process_index, *pool_conf)
+        self._config.reset_pool_external_address(process_index, external_addresses)
         self.attach_sub_process(external_addresses[0], process)
+        # there may have been nothing to monitor so far
+        await self.start_monitor()
 
         control_message = ControlMessage(
             message_id=new_message_id(),
@@ -449,6 +455,7 @@ class MainActorPool(MainActorPoolBase):
         del self.sub_processes[external_address]
         self._set_recover_event(external_address)
         self._config.remove_pool_config(process_index)
+        self._allocated_actors.pop(external_address, None)
         await self.stop_sub_pool(external_address, process, timeout, force)
 
         control_message = ControlMessage(
@@ -532,10 +539,36 @@ class MainActorPool(MainActorPoolBase):
 
     async def recover_sub_pool(self, address: str):
         process_index = self._config.get_process_index(address)
+        process_indexes = self._config.get_process_indexes()
         # process dead, restart it
         # remember always use spawn to recover sub pool
         task = asyncio.create_task(self.start_sub_pool(self._config, process_index))
-        self.sub_processes[address] = (await self.wait_sub_pools_ready([task]))[0][0]
+        process = (await self.wait_sub_pools_ready([task]))[0][0]
+        if address not in self.sub_processes:
+            # removed while it was starting
+            await self.kill_sub_pool(process, force=True)
+            return
+        self.sub_processes[address] = process
+
+        async def call_recovered(message: _MessageBase):
+            try:
+                await self.call(address, message)
+            except (ConnectionError, ServerClosed):
+                if not await self.is_sub_pool_alive(process):
+                    raise
+                # it was the connection to the dead process, connect again
+                await self.call(address, message)
+
+        if self._config.get_process_indexes() != process_indexes:
+            # sub pools were added or removed while it was starting
+            await call_recovered(
+                ControlMessage(
+                    message_id=new_message_id(),
+                    address=self.external_address,
+                    control_message_type=ControlMessageType.sync_config,
+                    content=self._config,
+                )
+            )
 
         if self._auto_recover == "actor":
             # need to recover all created actors
@@ -544,13 +577,7 @@ class MainActorPool(MainActorPoolBase):
                     # placeholder of an actor that is being created
                     continue
                 create_actor_message: CreateActorMessage = message  # type: ignore
-                try:
-                    await self.call(address, create_actor_message)
-                except (ConnectionError, ServerClosed):
-                    if not await self.is_sub_pool_alive(self.sub_processes[address]):
-                        raise
-                    # it was the connection to the dead process, connect again
-                    await self.call(address, create_actor_message)
+                await call_recovered(create_actor_message)
 
     async def start(self):
         await super().start()
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index fabf389..14522ce 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1350,6 +1350,8 @@ class MainActorPoolBase(ActorPoolBase):
                     # call super
                     task = asyncio.create_task(super().handle_control_command(message))
                     tasks.append(task)
+                    # one failure must not hide that others are not done yet
+                    await asyncio.wait(tasks)
                     await asyncio.gather(*tasks)
                     processor.result = await task
                 else:
@@ -1395,7 +1397,8 @@ class MainActorPoolBase(ActorPoolBase):
                 message.control_message_type == ControlMessageType.remove_sub_pool_actor
             ):
                 address, uid, create_message_id = message.content
-                allocated = self._allocated_actors[address]
+                # the sub pool may have been removed
+                allocated = self._allocated_actors.get(address, dict())
                 # the creation may not be finished here
                 allocated.pop(create_message_id, None)
                 ref = create_actor_ref(address, uid)
@@ -1536,6 +1539,8 @@ class MainActorPoolBase(ActorPoolBase):
 
     def attach_sub_process(self, external_address: str, process: SubProcessHandle):
         self.sub_processes[external_address] = process
+        # sub pools could be appended later
+        self._allocated_actors.setdefault(external_address, dict())
 
     async def stop_sub_pools(self):
         to_stop_processes: dict[str, SubProcessHandle] = dict()  # type: ignore
@@ -1620,6 +1625,9 @@ class MainActorPoolBase(ActorPoolBase):
             while not self._stopped.is_set():
                 # Copy sub_processes to avoid changes during recover.
                 for address, process in list(self.sub_processes.items()):
+                    if self.sub_processes.get(address) is not process:
+                        # removed in the meantime
+                        continue
                     try:
                         recover_events_discovered = address in self._recover_events
                         if not await self.is_sub_pool_alive(
-- 
2.43.0


From 784b74c50f1f8887efea1fa985e5a90ae1f4a464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:48 +0000
Subject: [PATCH 34/35] fix: fail pending calls when the listening ends by
 cancellation

---
 python/xoscar/backends/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index a091594..235be59 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -134,13 +134,15 @@ class ActorCallerThreadLocal:
                         pass
                     await asyncio.sleep(0)
 
+        finally:
+            # nobody else would receive the responses,
+            # no matter if the client closed or the listening gets cancelled
             message_futures = self._client_to_message_futures[client]
             self._client_to_message_futures[client] = dict()
             error = ServerClosed(f"Remote server {client.dest_address} closed")
             for future in message_futures.values():
                 if not future.done():
                     future.set_exception(copy.copy(error))
-        finally:
             try:
                 await client.close()
             except:  # noqa: E722  # nosec  # pylint: disable=bare-except
-- 
2.43.0


From f62d502d59239783a44851f08fe7d1a3bbd81cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:48 +0000
Subject: [PATCH 35/35] fix: write buffers of any format and shape byte by byte

---
 python/xoscar/serialization/aio.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/python/xoscar/serialization/aio.py b/python/xoscar/serialization/aio.py
index 174087f..815f0e8 100644
--- a/python/xoscar/serialization/aio.py
+++ b/python/xoscar/serialization/aio.py
@@ -16,6 +16,7 @@
 import asyncio
 import struct
 from io import BytesIO
+from pickle import PickleBuffer
 from typing import Any, BinaryIO, Union
 
 import cloudpickle
@@ -30,6 +31,19 @@ DEFAULT_SPAWN_THRESHOLD = 100
 BUFFER_SIZES_NAME = "buf_sizes"
 
 
+def _to_raw_buffer(buf: Any):
+    if isinstance(buf, (bytes, bytearray)) or hasattr(buf, "__cuda_array_interface__"):
+        return buf
+    # buffers are counted and sliced by bytes when written,
+    # fail now if it is not a buffer, as nothing is written yet
+    view = memoryview(buf)
+    if not view.c_contiguous:
+        return memoryview(view.tobytes())
+    if view.ndim != 1 or view.itemsize != 1:
+        return PickleBuffer(view).raw()
+    return view
+
+
 class AioSerializer:
     def __init__(self, obj: Any, compress=0):
         self._obj = obj
@@ -39,6 +53,7 @@ class AioSerializer:
         headers, buffers = await serialize_with_spawn(
             self._obj, spawn_threshold=DEFAULT_SPAWN_THRESHOLD
         )
+        buffers = [_to_raw_buffer(buf) for buf in buffers]
 
         def _is_cuda_buffer(buf: Union["rmm.DeviceBuffer", BinaryIO]):  # type: ignore
             return hasattr(buf, "__cuda_array_interface__")
-- 
2.43.0

