From 5a7ca7c7c8757b5b6a662829214d9c436767ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 001/119] fix: mc_generic: an exception in a run without MPI
 environment dereferenced a null node monitor

---
 c++/triqs/mc_tools/mc_generic.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 073c9e6..49427ec 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -252,6 +252,7 @@ namespace triqs::mc_tools {
       done_percent = 0;
       nmeasures    = 0;
       bool stop_it = false, finished = false, infinite = (n_cycles < 0);
+      bool emergency = false; // an exception occurred and there is no node_monitor to propagate it
       int NC                = 0;
       double next_info_time = 0.1;
 
@@ -286,10 +287,12 @@ namespace triqs::mc_tools {
         } catch (std::exception const &err) {
           // log the error and node number
           std::cerr << "mc_generic: Exception occurs on node " << c.rank() << "\n" << err.what() << std::endl;
-          if (rethrow_exception)
+          if (not rethrow_exception)
+            c.abort(2);
+          else if (node_monitor)
             node_monitor->request_emergency_stop();
           else
-            c.abort(2);
+            emergency = true;
         }
 
         // recompute fraction done
@@ -309,6 +312,7 @@ namespace triqs::mc_tools {
 
         // Stop if an emergeny occured on any node
         if (node_monitor) stop_it |= node_monitor->emergency_occured();
+        stop_it |= emergency;
 
       } // end main NC loop
 
@@ -320,8 +324,9 @@ namespace triqs::mc_tools {
 
       if (node_monitor) {
         node_monitor->finalize_communications();
-        if (node_monitor->emergency_occured()) TRIQS_RUNTIME_ERROR << "mc_generic stops because the calculation raised an exception on one node";
+        emergency |= node_monitor->emergency_occured();
       }
+      if (emergency) TRIQS_RUNTIME_ERROR << "mc_generic stops because the calculation raised an exception on one node";
 
       // final reporting
       if (status == 1) report << "mc_generic stops because of stop_callback" << std::endl;
-- 
2.43.0


From 4a61516adc1b213f8ffecbdcabdedfeab0fdc44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 002/119] fix: mc_generic: a run of zero cycles left the timer
 running and the number of measures unset

---
 c++/triqs/mc_tools/mc_generic.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 49427ec..4699a0f 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -245,12 +245,12 @@ namespace triqs::mc_tools {
 
       AllMoves.clear_statistics();
 
-      timer_run = {};
-      timer_run.start();
-      if (n_cycles == 0) return 0;
-      triqs::signal_handler::start();
+      timer_run    = {};
       done_percent = 0;
       nmeasures    = 0;
+      if (n_cycles == 0) return 0;
+      timer_run.start();
+      triqs::signal_handler::start();
       bool stop_it = false, finished = false, infinite = (n_cycles < 0);
       bool emergency = false; // an exception occurred and there is no node_monitor to propagate it
       int NC                = 0;
@@ -436,7 +436,7 @@ namespace triqs::mc_tools {
     measure_set<MCSignType> AllMeasures;
     std::vector<measure_aux> AllMeasuresAux;
     utility::report_stream report;
-    int64_t nmeasures, current_cycle_number = 0;
+    int64_t nmeasures = 0, current_cycle_number = 0;
     utility::timer timer_run, timer_accumulation, timer_warmup;
     std::function<void()> after_cycle_duty;
     MCSignType sign        = 1;
-- 
2.43.0


From 40ccd3d9cf7a3036db9b52a6aa0b175f39877a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:33 +0000
Subject: [PATCH 003/119] fix: mc_generic: a signal interrupting the last cycle
 was reported as a complete run

---
 c++/triqs/mc_tools/mc_generic.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 4699a0f..d83f90a 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -252,7 +252,8 @@ namespace triqs::mc_tools {
       timer_run.start();
       triqs::signal_handler::start();
       bool stop_it = false, finished = false, infinite = (n_cycles < 0);
-      bool emergency = false; // an exception occurred and there is no node_monitor to propagate it
+      bool interrupted = false; // a signal interrupted the current cycle
+      bool emergency   = false; // an exception occurred and there is no node_monitor to propagate it
       int NC                = 0;
       double next_info_time = 0.1;
 
@@ -283,7 +284,7 @@ namespace triqs::mc_tools {
           }
         } catch (triqs::signal_handler::exception const &) {
           std::cerr << "mc_generic: Signal caught on node " << c.rank() << "\n" << std::endl;
-          // current cycle interrupted, stop calculation below
+          interrupted = true; // current cycle interrupted, stop calculation below
         } catch (std::exception const &err) {
           // log the error and node number
           std::cerr << "mc_generic: Exception occurs on node " << c.rank() << "\n" << err.what() << std::endl;
@@ -307,7 +308,7 @@ namespace triqs::mc_tools {
           if (do_measure) report(3) << AllMeasures.report();
           next_info_time = 1.25 * timer_run + 2.0; // Increase time interval non-linearly
         }
-        finished = NC + 1 >= n_cycles and not infinite;
+        finished = NC + 1 >= n_cycles and not infinite and not interrupted;
         stop_it  = (stop_callback() || triqs::signal_handler::received() || finished);
 
         // Stop if an emergeny occured on any node
-- 
2.43.0


From ad41d6821019efa0f14c030954a9148ce63b9676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 004/119] fix: buffered_function: calling a default constructed
 object read out of an empty buffer instead of throwing

---
 c++/triqs/utility/buffered_function.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/utility/buffered_function.hpp b/c++/triqs/utility/buffered_function.hpp
index 7be2d61..2518290 100644
--- a/c++/triqs/utility/buffered_function.hpp
+++ b/c++/triqs/utility/buffered_function.hpp
@@ -54,18 +54,18 @@ namespace triqs {
 
       /// Returns the next element. Refills the buffer if necessary.
       R operator()() {
-        if (index > buffer.size() - 1) refill(this);
+        if (index >= buffer.size()) refill(this);
         return buffer[index++];
       }
 
       /// Returns the future next element, without increasing the index. Refills the buffer if necessary.
       R preview() {
-        if (index > buffer.size() - 1) refill(this);
+        if (index >= buffer.size()) refill(this);
         return buffer[index];
       }
 
       private:
-      size_t index;
+      size_t index = 0;
       std::vector<R> buffer;
       std::function<void(buffered_function *)> refill; // this refills the buffer and reset index of a buffered_function.
                                                        // NB : cannot capture this in refill because we want the object to be copyable and movable
-- 
2.43.0


From 669f4503d7cabb41b2e34cb788a4b4d5634f5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 005/119] fix: signal_handler: a signal delivered while another
 one was being recorded was lost or corrupted the list

---
 c++/triqs/utility/signal_handler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/utility/signal_handler.cpp b/c++/triqs/utility/signal_handler.cpp
index 9693d11..5a88ed8 100644
--- a/c++/triqs/utility/signal_handler.cpp
+++ b/c++/triqs/utility/signal_handler.cpp
@@ -41,6 +41,7 @@ namespace triqs {
       static struct sigaction action;
       memset(&action, 0, sizeof(action));
       action.sa_handler = slot;
+      sigfillset(&action.sa_mask); // slot is not reentrant
       sigaction(SIGINT, &action, NULL);
       sigaction(SIGTERM, &action, NULL);
       sigaction(SIGXCPU, &action, NULL);
-- 
2.43.0


From 69bd5cc14ba7e917c36b71b898104506aac680d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 006/119] fix: dist_on_nodes: a run over several nodes failed,
 and lost falsy tasks

irecv was missing in triqs.utility.mpi, the result of Request.test and waitpid was
misread, the pickle file was opened in text mode, tasks which are false (0, empty
containers) were not computed on the master, an empty list of tasks left the nodes
waiting for ever, arrays could not be tasks on one node and the list of the caller
was reversed in place.
---
 python/triqs/utility/dist_on_nodes.py | 28 +++++++++++++--------------
 python/triqs/utility/mpi_mpi4py.py    |  3 +++
 2 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/python/triqs/utility/dist_on_nodes.py b/python/triqs/utility/dist_on_nodes.py
index aee979c..ec2505e 100644
--- a/python/triqs/utility/dist_on_nodes.py
+++ b/python/triqs/utility/dist_on_nodes.py
@@ -48,7 +48,7 @@ class DistributionOnNodes:
         if mpi.size==1 : # single machine. Avoid the fork
             while not(self.finished()):
                 n = next(self)
-                if n!=None : 
+                if n is not None : 
                     self.treate(self.the_function(n),0)
             return
 
@@ -57,17 +57,17 @@ class DistributionOnNodes:
         node_running,node_stopped= mpi.size*[False],mpi.size*[False]
 
         if mpi.rank==0 :
-          while not(self.finished()) or pid or [n for n in node_running if n] != [] :
+          while not(self.finished()) or pid or any(node_running) or not(all(node_stopped[1:])) :
               # Treat the request which have self.finished
               def keep_request(r) :
                   #if not(mpi.test(r)) :  return True
                   #if r.message !=None : self.treate(*r.message)
                   #node_running[r.status.source] = False
-                  T = r.test()
-                  if T is None :  return True
-                  value = T[0]
-                  if value !=None : self.treate(*value)
-                  node_running[T[1].source] = False
+                  done, value = r.test()
+                  if not(done) :  return True
+                  res, node = value
+                  if res is not None : self.treate(res, node)
+                  node_running[node] = False
                   return False
               RequestList = list(filter(keep_request,RequestList))
               # send new calculation to the nodes or "stop" them
@@ -82,19 +82,19 @@ class DistributionOnNodes:
                       node_stopped[node] = True
 
               # Look if the child process on the master has self.finished.
-              if not(pid) or os.waitpid(pid,os.WNOHANG) :
+              if not(pid) or os.waitpid(pid,os.WNOHANG)[0] :
                   if pid :
-                      RR = pickle.load(open("res_master",'r'))
-                      if RR != None : self.treate(*RR)
+                      with open("res_master",'rb') as f : res, node = pickle.load(f)
+                      if res is not None : self.treate(res, node)
                   if not(self.finished()) :
                       pid=os.fork();
                       currently_calculated_by_master = next(self)
                       if pid==0 :  # we are on the child
-                          if currently_calculated_by_master :
+                          if currently_calculated_by_master is not None :
                               res = self.the_function(currently_calculated_by_master)
                           else:
                               res = None
-                          pickle.dump((res,mpi.rank),open('res_master','w'))
+                          with open("res_master",'wb') as f : pickle.dump((res,mpi.rank),f)
                           os._exit(0) # Cf python doc. Used for child only.
                   else : pid=0
               if (pid): time.sleep(self.SleepTime) # so that most of the time is for the actual calculation on the master
@@ -102,7 +102,7 @@ class DistributionOnNodes:
         else : # not master
             while not(mpi.recv(0)) :  # master will first send a finished flag
                 omega = mpi.recv(0)
-                if omega ==None :
+                if omega is None :
                     res = None
                 else :
                     res = self.the_function(omega)
@@ -118,7 +118,7 @@ class DistributionOnNodesOneStack(DistributionOnNodes) :
     Reimplement just the_function
     """
     def __init__(self,the_stack) :
-        self.__l = the_stack
+        self.__l = list(the_stack)
         self.__l.reverse()
         self.__result = []
         
diff --git a/python/triqs/utility/mpi_mpi4py.py b/python/triqs/utility/mpi_mpi4py.py
index 0e3e787..f6063e0 100644
--- a/python/triqs/utility/mpi_mpi4py.py
+++ b/python/triqs/utility/mpi_mpi4py.py
@@ -47,6 +47,9 @@ def recv(source = 0):
     #print "node ", rank, " receives ", r, " from node ", source
     return r
 
+def irecv(source = 0):
+    return world.irecv(source = source)
+
 
 def barrier(poll_msec=1):
     """
-- 
2.43.0


From d933dd22c6d6867265f7b5a35f7515801e04079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:48 +0000
Subject: [PATCH 007/119] fix: mpi: master_gets_host_names failed on more than
 one node

---
 python/triqs/utility/mpi_mpi4py.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/triqs/utility/mpi_mpi4py.py b/python/triqs/utility/mpi_mpi4py.py
index f6063e0..b851730 100644
--- a/python/triqs/utility/mpi_mpi4py.py
+++ b/python/triqs/utility/mpi_mpi4py.py
@@ -121,13 +121,12 @@ def master_gets_host_names():
     HostNames[rank] = gethostname()
     if is_master_node() :
       for proc in range (1,size) :
-        HostNames[proc],status = recv(proc)
+        HostNames[proc] = recv(proc)
     else:
       send(gethostname(),master)
     barrier()
-    assert len(HostNames)==size," internal pb MPI module"
-    
     if is_master_node() :
+      assert len(HostNames)==size," internal pb MPI module"
       print("Hostnames : ")
       for u,host in list(HostNames.items()) :
         print("Node %d  on machine %s"%(u,host))
-- 
2.43.0


From 82cb7852d3103a08e1995a39c199f7622c4382e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 008/119] fix: mpi_nompi: what was sent to oneself could not be
 received (UnboundLocalError)

---
 python/triqs/utility/mpi_nompi.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/python/triqs/utility/mpi_nompi.py b/python/triqs/utility/mpi_nompi.py
index bc12256..1bacf23 100644
--- a/python/triqs/utility/mpi_nompi.py
+++ b/python/triqs/utility/mpi_nompi.py
@@ -30,7 +30,7 @@ size = 1
 All_Nodes_report = False
 
 # variable for send and receive
-_sendval = None
+_sendvals = []
 
 myprint_err ("Starting serial run at: %s"%(str(datetime.datetime.now())))
 
@@ -60,15 +60,12 @@ def all_reduce(x, comm=world, op=lambda x, y: x + y):
     return x
 
 def send(val, dest):
-    _sendval = val
-    return
+    _sendvals.append(val)
 
 def recv(source = 0):
-    if _sendval is None:
+    if not _sendvals:
         raise Exception('send val not set')
-    recval = _sendval
-    _sendval = None
-    return recval
+    return _sendvals.pop(0)
 
 def slice_array(A) :
     """Given an array A, it returns a VIEW of a slice over the first dim on the node"""
-- 
2.43.0


From a57dc749fa6fd324d59293e83b66cb09b32d54d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 009/119] fix: dichotomy: a point exactly at the requested
 precision was reported as a failure

---
 python/triqs/utility/dichotomy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/dichotomy.py b/python/triqs/utility/dichotomy.py
index e66d78c..d6d6175 100644
--- a/python/triqs/utility/dichotomy.py
+++ b/python/triqs/utility/dichotomy.py
@@ -107,7 +107,7 @@ def dichotomy(function, x_init, y_value, precision_on_y, delta_x,
         if verbosity > 2:
             mpi.report("%(PR)s%(x1)f < %(x_name)s < %(x2)f"%locals())
             mpi.report("%(PR)s%(y1)f < %(y_name)s < %(y2)f"%locals())
-    if abs(yfound - y_value) < precision_on_y :
+    if abs(yfound - y_value) <= precision_on_y :
         if verbosity>0:
             mpi.report("%(PR)s%(x_name)s found in %(nbre_loop)d iterations : "%locals())
             mpi.report("%(PR)s%(y_name)s = %(yfound)f;%(x_name)s = %(x)f"%locals())
-- 
2.43.0


From 2818ef0cd6ef854b2ac7b6afc8e87aa364d4856d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:00 +0000
Subject: [PATCH 010/119] fix: redirect: the redirected output was lost, and
 its end dropped at stop

---
 python/triqs/utility/redirect.py | 44 ++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/python/triqs/utility/redirect.py b/python/triqs/utility/redirect.py
index 8409818..bb8bf02 100644
--- a/python/triqs/utility/redirect.py
+++ b/python/triqs/utility/redirect.py
@@ -17,7 +17,7 @@
 #
 # Authors: Olivier Parcollet, Nils Wentzell
 
-import threading, time, sys, os, fcntl
+import threading, time, sys, os, fcntl, codecs
 
 __all__ = ['start_redirect', 'stop_redirect']
 
@@ -31,34 +31,44 @@ class T(threading.Thread):
     # copy the c++ stdout handler for later
     self.oldhandle = os.dup(1)
 
+    # create a pipe and glue the c++ stdout to its write end
+    # make the read end non-blocking
+    self.piper, pipew = os.pipe()
+    os.dup2(pipew, 1)
+    os.close(pipew)
+    fcntl.fcntl(self.piper,fcntl.F_SETFL,os.O_NONBLOCK)
+    self.decoder = codecs.getincrementaldecoder('utf-8')(errors='replace')
+
   def stop(self):
+    # wait for the thread, so that all the output is there and stdout is back to where it was
     self.go_on = False
+    self.join()
+
+  def forward(self):
+    # read out the pipe and write it to the screen. Returns True if there may be more to read.
+    # if the pipe was empty it return an error (hence the try-except)
+    try:
+      data = os.read(self.piper, 10000)
+      sys.stdout.write(self.decoder.decode(data))
+      sys.stdout.flush()
+      return len(data) > 0
+    except Exception:
+      return False
 
   def run(self):
 
-    # create a pipe and glue the c++ stdout to its write end
-    # make the read end non-blocking
-    piper, pipew = os.pipe()
-    os.dup2(pipew, 1)
-    os.close(pipew)
-    fcntl.fcntl(piper,fcntl.F_SETFL,os.O_NONBLOCK)
-    
     while self.go_on:
 
       # give the system 1 second to fill up the pipe
       time.sleep(1)
-      try:
-        # read out the pipe and write it to the screen
-        # if the pipe was empty it return an error (hence the try-except)
-        sys.stdout.write(os.read(piper, 10000))
-        sys.stdout.flush()
-      except:
-        pass
+      self.forward()
 
     # when we want to stop the thread put back the c++ stdout where it was
-    # clear the pipe
+    # and clear the pipe
     os.dup2(self.oldhandle, 1)
-    os.close(piper)
+    os.close(self.oldhandle)
+    while self.forward(): pass
+    os.close(self.piper)
     return
 
 # flag to know if the thread was started
-- 
2.43.0


From bb34dfc348d3f310756575bcae022b2dc7dafb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:10 +0000
Subject: [PATCH 011/119] fix: lazy expressions: transform ignored Fterm below
 the root

---
 python/triqs/gf/lazy_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index bb81536..5122150 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -120,7 +120,7 @@ def transform (expr, Fnode, Fterm = lambda x: x ):
            it transforms the expression recursively
     """
     if expr.tag == "T": return LazyExpr("T", Fterm(expr.childs[0]))
-    tag, ch = Fnode (expr.tag, [transform (e, Fnode) for e in expr.childs])
+    tag, ch = Fnode (expr.tag, [transform (e, Fnode, Fterm) for e in expr.childs])
     ch = [LazyExpr(x) for x in ch]
     return LazyExpr (tag, *ch)
 
-- 
2.43.0


From a697ae3d5df834d98f4336001e2a443229365275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:26 +0000
Subject: [PATCH 012/119] fix: lazy expressions: the printed text had lost
 parentheses and separators, or failed on functions

---
 python/triqs/gf/lazy_expressions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index 5122150..6d51464 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -75,12 +75,14 @@ class LazyExpr (__aux):
         return self.childs[0] if self.tag == "T" else None
 
     def __aux_print(self, F):
-        op_priority = {'T': 100, "+": 1 , '-': 1, '*': 2, '/': 2}
+        op_priority = {'T': 100, 'F': 100, "+": 1 , '-': 1, '*': 2, '/': 2}
         if self.tag == "T":  return F(self.childs[0])
         if self.tag == "F":
-            return reduce (lambda s, e: s+ F(e), self.childs[1:], self.childs[0].get_terminal()[0] + "(" ) + ')'
-        par = lambda op, e: "%s"%e if op_priority[e.tag] >= op_priority[op] else "(%s)"%e
-        return "%s %s %s "%(par(self.tag , self.childs[0]), self.tag , par(self.tag , self.childs[1]))
+            return self.childs[0].get_terminal()[0] + "(" + ", ".join(F(e) for e in self.childs[1:]) + ')'
+        # the right operand also needs parentheses when it has the same priority, e.g. a - (b - c)
+        par = lambda e, minimum: F(e) if op_priority[e.tag] >= minimum else "(%s)"%F(e)
+        prio = op_priority[self.tag]
+        return "%s %s %s "%(par(self.childs[0], prio), self.tag , par(self.childs[1], prio + 1))
 
     def __str__(self): return self.__aux_print(str)
     def __repr__(self): return self.__aux_print(repr)
-- 
2.43.0


From 7a58a29c9ba40a5cccae6405ab24bd5b5577bbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:26 +0000
Subject: [PATCH 013/119] fix: SemiCircular: filled every matrix element, not
 the diagonal, in real frequencies; printing failed

---
 python/triqs/gf/descriptors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index 61d5fc0..b737ddc 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -81,7 +81,7 @@ semicircle
 """
         Base.__init__(self, half_bandwidth=half_bandwidth, chem_potential=chem_potential)
 
-    def __str__(self): return "SemiCircular(%s, %s)"%self.half_bandwidth, chem_potential 
+    def __str__(self): return "SemiCircular(%s, %s)"%(self.half_bandwidth, self.chem_potential) 
 
     def __call__(self,G):
         D = self.half_bandwidth
@@ -96,9 +96,9 @@ semicircle
             def f(om_):
               om = om_.real + mu
               if (om > -D) and (om < D):
-                return (2.0/D**2) * (om - 1j* sqrt(D**2 - om**2))
+                return (2.0/D**2) * (om - 1j* sqrt(D**2 - om**2))*Id
               else:
-                return (2.0/D**2) * (om - copysign(1,om) * sqrt(om**2 - D**2))
+                return (2.0/D**2) * (om - copysign(1,om) * sqrt(om**2 - D**2))*Id
         else:
             raise TypeError("This initializer is only correct in frequency")
 
-- 
2.43.0


From c99101a81d650ca63c51e6455c5a2d21bf2e47da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:26 +0000
Subject: [PATCH 014/119] fix: eval_expr on a Green's function raised NameError

---
 python/triqs/gf/descriptor_base.py | 2 +-
 python/triqs/gf/gf.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/descriptor_base.py b/python/triqs/gf/descriptor_base.py
index f194e9a..9129d58 100644
--- a/python/triqs/gf/descriptor_base.py
+++ b/python/triqs/gf/descriptor_base.py
@@ -35,7 +35,7 @@ class LazyCTX:
     def __eq__ (self, y):
         return isinstance(y, self.__class__) and self._is_compatible_for_ops(y.G)
     def __call__ (self, x): 
-        if not isinstance(x, descriptor_base.Base): return x
+        if not isinstance(x, Base): return x
         tmp = self.G.copy()
         x(tmp)
         return tmp
diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index b7c1a99..2dd339e 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -377,7 +377,7 @@ class Gf(metaclass=AddMethod):
     # --------------  Lazy system -------------------------------------
 
     def __lazy_expr_eval_context__(self) : 
-        return LazyCTX(self)
+        return descriptor_base.LazyCTX(self)
 
     def __lshift__(self, A):
         """ A can be two things:
-- 
2.43.0


From 528957f6e448de47bdc4c3f7cd423cc6fbc5438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:55 +0000
Subject: [PATCH 015/119] fix: lazy expressions: a copy had the tuple of
 operands as its single operand

---
 python/triqs/gf/lazy_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index 6d51464..405463b 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -59,7 +59,7 @@ class LazyExpr (__aux):
 
     def copy(self):
         """ Deep copy"""
-        return LazyExpr(self.tag, self.childs)
+        return LazyExpr(self.tag, *[c.copy() if isinstance(c, LazyExpr) else c for c in self.childs])
 
     def set_from(self, y):
         """ self:= y """
-- 
2.43.0


From fae5588b286546c6f41224573069bc5734326edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 016/119] fix: Gf: in-place multiplication refused the square
 arguments instead of the nonsquare ones

---
 python/triqs/gf/gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 2dd339e..5a626a9 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -483,8 +483,8 @@ class Gf(metaclass=AddMethod):
 
             if self.target_rank == 2:
                 if arg.target_rank == 2:
-                    assert arg.target_shape[0] != arg.target_shape[1], "In place multiplication not supported if"
-                    "the argument is a nonsquare matrix. Use regular multiplication instead."
+                    assert arg.target_shape[0] == arg.target_shape[1], ("In place multiplication not supported if "
+                        "the argument is a nonsquare matrix. Use regular multiplication instead.")
                     np.matmul(self.data, arg.data, out=self.data)
                 elif arg.target_rank == 0:
                     self.data[:] *= arg.data[..., None, None]
-- 
2.43.0


From a74aa45f55d357cb376d7f5a7c0bc67bf1f07ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 017/119] fix: Gf: conjugate and transpose shared the mesh with
 the original

---
 python/triqs/gf/gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 5a626a9..6778385 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -640,7 +640,7 @@ class Gf(metaclass=AddMethod):
         assert self.target_rank == 2, "Transpose only implemented for matrix valued Greens functions"
 
         d = np.transpose(self.data.copy(), (0, 2, 1))
-        return Gf(mesh = self.mesh, data= d)
+        return Gf(mesh = self.mesh.copy(), data= d)
 
     def conjugate(self):
         """Conjugate of the Greens function.
@@ -650,7 +650,7 @@ class Gf(metaclass=AddMethod):
         G : Gf (copy)
             Conjugate of the Greens function.
         """
-        return Gf(mesh = self.mesh, data= np.conj(self.data))
+        return Gf(mesh = self.mesh.copy(), data= np.conj(self.data))
 
     def zero(self):
         """Set all values to zero."""
-- 
2.43.0


From 62e293130d5383589c128b5891b00b11bcc0ceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 018/119] fix: Gf: the sum of functions with different target
 shapes was broadcast silently

---
 python/triqs/gf/gf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 6778385..59a8ef4 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -428,6 +428,7 @@ class Gf(metaclass=AddMethod):
         if isinstance(arg, Gf):
             assert type(self.mesh) == type(arg.mesh), "Can not add two Gf with meshes of different type"
             assert self.mesh == arg.mesh, "Can not add two Gf with different mesh"
+            assert self.target_shape == arg.target_shape, "Can not add two Gf with different target shapes"
             self._data += arg._data 
         else:
             if self._target_rank != 2 and not isinstance(arg, np.ndarray):
@@ -452,6 +453,7 @@ class Gf(metaclass=AddMethod):
        if isinstance(arg, Gf):
            assert type(self.mesh) == type(arg.mesh), "Can not subtract two Gf with meshes of different type"
            assert self.mesh == arg.mesh, "Can not subtract two Gf with different mesh"
+           assert self.target_shape == arg.target_shape, "Can not subtract two Gf with different target shapes"
            self._data -= arg._data 
        else:
             if self._target_rank != 2 and not isinstance(arg, np.ndarray):
-- 
2.43.0


From 5df46f5b38ae1100d5082e64cc48fd6f012ea4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 019/119] fix: MeshProduct: to_data_index gave a generator,
 which can not index the data

---
 python/triqs/gf/mesh_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/mesh_product.py b/python/triqs/gf/mesh_product.py
index e27bbec..62be47e 100644
--- a/python/triqs/gf/mesh_product.py
+++ b/python/triqs/gf/mesh_product.py
@@ -98,7 +98,7 @@ class MeshProduct:
     def to_data_index(self, idx) :
         """
         """
-        return (x.to_data_index(i) for x,i in zip(self._mlist, idx))
+        return tuple(x.to_data_index(i) for x,i in zip(self._mlist, idx))
 
     def __repr__(self):
         """ """
-- 
2.43.0


From b63746d8f84cad817aa9565ac25c550e2a6878f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:58 +0000
Subject: [PATCH 020/119] fix: MeshProduct: comparison with another type of
 mesh raised AttributeError

---
 python/triqs/gf/mesh_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/mesh_product.py b/python/triqs/gf/mesh_product.py
index 62be47e..9d2061a 100644
--- a/python/triqs/gf/mesh_product.py
+++ b/python/triqs/gf/mesh_product.py
@@ -74,7 +74,7 @@ class MeshProduct:
         """
         Compare with another product mesh
         """
-        return self._mlist == other._mlist
+        return isinstance(other, MeshProduct) and tuple(self._mlist) == tuple(other._mlist)
 
     def __iter__(self):
         """
-- 
2.43.0


From 1a35639fbebd5711320661c8b831e0ddd99e7ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 021/119] fix: BlockGf, Block2Gf: copy_from failed on scalar
 blocks and ignored additional blocks

---
 python/triqs/gf/block2_gf.py | 4 +++-
 python/triqs/gf/block_gf.py  | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 997ff85..419fd09 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -115,8 +115,10 @@ class Block2Gf:
     def copy_from(self, G2):
         """Copy the Green's function from G2: G2 MUST have the same structure!"""
         assert isinstance(G2, Block2Gf)
+        if list(self.indices) != list(G2.indices):
+            raise RuntimeError("The Green Functions do not have the same blocks: %s and %s"%(list(self.indices), list(G2.indices)))
         for (i,g), (i2,g2) in zip(self,G2):
-           assert g.data.shape == g2.data.shape, "Blocks %s and %s of the Green Function do have the same dimension"%(i1,i2)
+           assert g.data.shape == g2.data.shape, "Blocks %s and %s of the Green Function do not have the same dimension"%(i,i2)
         for (i,g),(i2,g2) in zip(self,G2): g.copy_from(g2)
 
      #--------------  Iterators -------------------------
diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index ba6c8bb..fc872e6 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -151,9 +151,11 @@ class BlockGf:
     def copy_from(self, G2):
         """Copy the Green's function from G2: G2 MUST have the same structure!"""
         assert isinstance(G2, BlockGf)
+        if list(self.indices) != list(G2.indices):
+            raise RuntimeError("The Green Functions do not have the same blocks: %s and %s"%(list(self.indices), list(G2.indices)))
         for (i,g),(i2,g2) in zip(self,G2): 
-           if  (g.target_shape[0],g.target_shape[1]) != (g2.target_shape[0],g2.target_shape[1]): 
-               raise RuntimeError("Blocks %s and %s of the Green Function do have the same dimension"%(i1,i2)) 
+           if g.data.shape != g2.data.shape: 
+               raise RuntimeError("Blocks %s and %s of the Green Function do not have the same dimension"%(i,i2)) 
         for (i,g),(i2,g2) in zip(self,G2): g.copy_from(g2)
 
      #--------------  Iterators -------------------------
-- 
2.43.0


From 9185ea0c35b6a521004a518e77dc9882344af244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 022/119] fix: BlockGf, Block2Gf: a matrix on the left was
 multiplied from the right

---
 python/triqs/gf/block2_gf.py | 5 ++++-
 python/triqs/gf/block_gf.py  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 419fd09..87d2095 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -301,7 +301,10 @@ class Block2Gf:
             c *= y
         return c
 
-    def __rmul__(self,x): return self.__mul__(x)
+    def __rmul__(self,x):
+        c = self.copy()
+        for (i,g),(i2,g2) in zip(c,self): g.copy_from(x * g2) # x can be a matrix
+        return c
 
     def __itruediv__(self,arg):
         if isinstance(arg, Sequence):
diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index fc872e6..150cd9c 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -362,7 +362,10 @@ class BlockGf:
             c *= y
         return c
 
-    def __rmul__(self,x): return self.__mul__(x)
+    def __rmul__(self,x):
+        c = self.copy()
+        for (i,g),(i2,g2) in zip(c,self): g.copy_from(x * g2) # x can be a matrix
+        return c
 
     def __itruediv__(self,arg):
         if isinstance(arg, Sequence):
-- 
2.43.0


From 2d1677fb80b8c0846601d82576fa9ccf71144a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 023/119] fix: BlockGf: adding a lazy expression had no effect

---
 python/triqs/gf/block_gf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index 150cd9c..4e56afd 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -310,9 +310,9 @@ class BlockGf:
             for (n,g) in self: self[n] += arg[n]
         elif isinstance(arg, Sequence):
             assert len(arg) == len(self.__GFlist), "list of incorrect length"
-            for l,g in zip(arg,self.__GFlist): g +=l
+            for l,(i,g) in zip(arg,self): self[i] += l
         else:
-            for i,g in self: g += arg
+            for i,g in self: self[i] += arg
         return self
 
     def __add__(self,y):
@@ -327,9 +327,9 @@ class BlockGf:
            for (n,g) in self: self[n] -= arg[n]
         elif isinstance(arg, Sequence):
             assert len(arg) == len(self.__GFlist) , "list of incorrect length"
-            for l,g in zip(arg,self.__GFlist): g -=l
+            for l,(i,g) in zip(arg,self): self[i] -= l
         else:
-            for i,g in self: g -= arg
+            for i,g in self: self[i] -= arg
         return self
 
     def __sub__(self,y):
-- 
2.43.0


From 6cf59d0523bf70db4b114ba17638bedaf7fc99eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 024/119] fix: BlockGf: all_indices gave pairs of ranges
 instead of pairs of indices

---
 python/triqs/gf/block_gf.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index 4e56afd..81fdb0a 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -195,10 +195,8 @@ class BlockGf:
     def all_indices(self):
        """  An Iterator on BlockGf indices and indices of the blocs of the form: block_index,n1,n2, where n1,n2 are indices of the block"""
        for sig,g in self:
-          val = g.indices
-          for x in val:
-              for y in val:
-                  yield  (sig,x,y)
+          for x in g.target_indices:
+              yield (sig,) + x
 
     @property
     def n_blocks(self):
-- 
2.43.0


From df0a2f166a6a7481b13819efde2a2fdad32cadcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 025/119] fix: Block2Gf: selected blocks were not in the order
 of self

---
 python/triqs/gf/block2_gf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 87d2095..6239f27 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -104,13 +104,15 @@ class Block2Gf:
         """Returns a VIEW of the selected blocks of self, in the same order as self."""
         for bn in selected_blocks1: assert bn in self.__indices1, "selected_blocks1: selected blocks must be existing blocks"
         for bn in selected_blocks2: assert bn in self.__indices2, "selected_blocks2: selected blocks must be existing blocks"
-        return self.__class__ (selected_blocks1, selected_blocks2, lambda bn1, bn2: self[bn1,bn2], make_copies=False)
+        return self.__class__ ([i for i in self.__indices1 if i in selected_blocks1], [i for i in self.__indices2 if i in selected_blocks2],
+                               lambda bn1, bn2: self[bn1,bn2], make_copies=False)
 
     def copy_selected_blocks(self, selected_blocks1, selected_blocks2):
         """Returns a COPY of the selected blocks of self, in the same order as self."""
         for bn in selected_blocks1: assert bn in self.__indices1, "selected_blocks1: selected blocks must be existing blocks"
         for bn in selected_blocks2: assert bn in self.__indices2, "selected_blocks2: selected blocks must be existing blocks"
-        return self.__class__ (selected_blocks1, selected_blocks2, lambda bn1, bn2: self[bn1,bn2], make_copies=True)
+        return self.__class__ ([i for i in self.__indices1 if i in selected_blocks1], [i for i in self.__indices2 if i in selected_blocks2],
+                               lambda bn1, bn2: self[bn1,bn2], make_copies=True)
 
     def copy_from(self, G2):
         """Copy the Green's function from G2: G2 MUST have the same structure!"""
-- 
2.43.0


From ec70cfff330f81d8f75e44e23bf556cf2364b52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 026/119] fix: Block2Gf could not be pickled

---
 python/triqs/gf/block2_gf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 6239f27..f533947 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -24,6 +24,10 @@ from itertools import chain, product
 import numpy as np
 
 
+def call_factory_from_dict(cl,name, dic):
+    """Given a class cl and a dict dic, it calls cl.__factory_from_dict__(dic)"""
+    return cl.__factory_from_dict__(name, dic)
+
 class Block2Gf:
     """
     Generic Green's Function by two-index Block.
@@ -186,7 +190,7 @@ class Block2Gf:
     #----------------------   IO    -------------------------------------
 
     def __reduce__(self):
-        return lambda cl,name,dic: cl.__factory_from_dict__(name, dic), (self.__class__,self.name, self.__reduce_to_dict__())
+        return call_factory_from_dict, (self.__class__,self.name, self.__reduce_to_dict__())
 
     def __reduce_to_dict__(self):
         d = {"%s_%s"%bn : g for bn, g in self}
-- 
2.43.0


From 5e8a2975fb85e078cda0027678450e07d3f87553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 027/119] fix: Block2Gf: << with an initializer and the error
 of an unknown block

---
 python/triqs/gf/block2_gf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index f533947..487c86c 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -223,14 +223,14 @@ class Block2Gf:
     def __getitem__(self,key):
         try:
             g = self.__GFlist[self.__indices1.index(key[0])][self.__indices2.index(key[1])]
-        except KeyError:
+        except (ValueError, TypeError, IndexError):
             raise IndexError("Block index '" + repr(key) + "' incorrect. Possible indices are: " + repr(list(product(self.__indices1,self.__indices2))))
         return g
 
     def __setitem__(self,key,val):
         try:
             g = self.__GFlist[self.__indices1.index(key[0])][self.__indices2.index(key[1])]
-        except KeyError:
+        except (ValueError, TypeError, IndexError):
             raise IndexError("Block index '" + repr(key) + "' incorrect. Possible indices are: "+ repr(list(product(self.__indices1,self.__indices2))))
         g << val
 
@@ -244,7 +244,7 @@ class Block2Gf:
         if isinstance(A, self.__class__):
            for bn, g in self: g << A[bn]
         else:
-           for bn, g in self:  self[bn] << A[bn]
+           for bn, g in self: g << A
         return self
 
     def __iadd__(self,arg):
-- 
2.43.0


From 39a179a1de1b646fabe1bb92c42c43a2af1a1bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 028/119] fix: Gf: a refused copy_from had already changed the
 mesh

---
 python/triqs/gf/gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 59a8ef4..3cf771a 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -261,8 +261,8 @@ class Gf(metaclass=AddMethod):
 
     def copy_from(self, another):
         """Copy the data of another Greens function into self."""
-        self._mesh.copy_from(another.mesh)
         assert self._data.shape == another._data.shape, "Shapes are incompatible: " + str(self._data.shape) + " vs " + str(another._data.shape)
+        self._mesh.copy_from(another.mesh)
         self._data[:] = another._data[:]
         self.__check_invariants()
 
-- 
2.43.0


From 5cbba089f4478d5c69d910c3d9c3d709aee4c1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 029/119] fix: Block2Gf: arithmetic with a list of rows always
 failed

---
 python/triqs/gf/block2_gf.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 487c86c..dd162a9 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -251,8 +251,8 @@ class Block2Gf:
         if isinstance(arg, self.__class__):
             for bn, g in self: self[bn] += arg[bn]
         elif isinstance(arg, Sequence):
-            assert len(arg) == len(self.__GFlist), "list of incorrect length"
-            for l, (bn, g) in zip(arg,self.__GFlist): self[bn] += l
+            assert [len(row) for row in arg] == [len(row) for row in self.__GFlist], "list of incorrect length"
+            for l, (bn, g) in zip(chain.from_iterable(arg), self): self[bn] += l
         else:
             for bn, g in self: self[bn] += arg
         return self
@@ -268,8 +268,8 @@ class Block2Gf:
         if isinstance(arg, self.__class__):
            for bn, g in self: self[bn] -= arg[bn]
         elif isinstance(arg, Sequence):
-            assert len(arg) == len(self.__GFlist) , "list of incorrect length"
-            for l, (bn, g) in zip(arg,self.__GFlist): self[bn] -= l
+            assert [len(row) for row in arg] == [len(row) for row in self.__GFlist], "list of incorrect length"
+            for l, (bn, g) in zip(chain.from_iterable(arg), self): self[bn] -= l
         else:
             for bn, g in self: self[bn] -= arg
         return self
@@ -288,8 +288,8 @@ class Block2Gf:
         if isinstance(arg, self.__class__):
             for bn, g in self: self[bn] *= arg[bn]
         elif isinstance(arg, Sequence):
-            assert len(arg) == len(self.__GFlist) , "list of incorrect length"
-            for l, (bn, g) in zip(arg,self.__GFlist): self[bn] *= l
+            assert [len(row) for row in arg] == [len(row) for row in self.__GFlist], "list of incorrect length"
+            for l, (bn, g) in zip(chain.from_iterable(arg), self): self[bn] *= l
         else:
             for bn, g in self: self[bn] *= arg
         return self
@@ -314,8 +314,8 @@ class Block2Gf:
 
     def __itruediv__(self,arg):
         if isinstance(arg, Sequence):
-            assert len(arg) == len(self.__GFlist) , "list of incorrect length"
-            for l, (bn, g) in zip(arg,self.__GFlist): self[bn] /= l
+            assert [len(row) for row in arg] == [len(row) for row in self.__GFlist], "list of incorrect length"
+            for l, (bn, g) in zip(chain.from_iterable(arg), self): self[bn] /= l
         else:
             for bn, g in self: self[bn] /= arg
         return self
-- 
2.43.0


From ec67bb8cbf785cde3baa5f05f003e614e03e5266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 030/119] fix: block descriptors (Fourier, ...): the second
 assignment had no effect

---
 python/triqs/gf/descriptor_base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/gf/descriptor_base.py b/python/triqs/gf/descriptor_base.py
index 9129d58..1fe67dd 100644
--- a/python/triqs/gf/descriptor_base.py
+++ b/python/triqs/gf/descriptor_base.py
@@ -71,14 +71,14 @@ class Base (LazyExprTerminal):
 class BaseBlock(Base):
     def __init__ (self, G, *args, **kw):
         Base.__init__(self, G = G)
-        if self.is_block_descriptor():
-            self.descriptor_iter = (self.__class__(g, *args, **kw) for i,g in G)
+        self.descriptor_args = args, kw
 
     def is_block_descriptor(self):
         return self.G.__class__.__name__ == 'BlockGf'
 
     def __iter__ (self):
-        return self.descriptor_iter
+        args, kw = self.descriptor_args
+        return (self.__class__(g, *args, **kw) for i,g in self.G)
                 
 #########################################################################
 
-- 
2.43.0


From b4c92723ab1b67f46efc4b95c93807705a0c43f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 031/119] fix: make_delta failed on a list of bath energies

---
 python/triqs/gf/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/gf/tools.py b/python/triqs/gf/tools.py
index 2bef238..e708157 100644
--- a/python/triqs/gf/tools.py
+++ b/python/triqs/gf/tools.py
@@ -310,6 +310,7 @@ def make_delta(V, eps, mesh, block_names=None):
         delta_list = [make_delta(v, e, mesh) for v, e in zip(V, eps)]
         return BlockGf(name_list=block_names, block_list=delta_list)
 
+    eps = np.asarray(eps)
     assert V.shape[1] == len(eps), 'number of bath sides in V and eps does not match'
 
     delta_res = Gf(mesh=mesh, target_shape=[V.shape[0], V.shape[0]])
-- 
2.43.0


From b744dacab8bb796dea2019186bf5a3968340f667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 032/119] fix: discretize_bath overwrote its argument

---
 python/triqs/gf/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/tools.py b/python/triqs/gf/tools.py
index e708157..e293c9c 100644
--- a/python/triqs/gf/tools.py
+++ b/python/triqs/gf/tools.py
@@ -404,7 +404,7 @@ def discretize_bath(delta_in, Nb, eps0=3, V0=None, tol=1e-15, maxiter=10000,
         assert delta_in.is_gf_real_in_tau()
 
     # enforce hermiticity
-    delta_in << make_hermitian(delta_in)
+    delta_in = make_hermitian(delta_in)
 
     def unflatten(x):
         # first half of parameters are hoppings, second half are bath energies
-- 
2.43.0


From c1f4d3b5344304889a674106f2d76aeeac0c61c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:06 +0000
Subject: [PATCH 033/119] fix: discretize_bath failed on scalar functions, and
 on real initial hoppings with cmplx

---
 python/triqs/gf/tools.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/tools.py b/python/triqs/gf/tools.py
index e293c9c..16eaaf6 100644
--- a/python/triqs/gf/tools.py
+++ b/python/triqs/gf/tools.py
@@ -457,7 +457,7 @@ def discretize_bath(delta_in, Nb, eps0=3, V0=None, tol=1e-15, maxiter=10000,
         else:
             leading_moment = -delta_in.data[0, ...]-delta_in.data[-1, ...]
         # obtain guess from cholesky decomposition of 1st moment (tail[1])
-        chol = np.linalg.cholesky(leading_moment)
+        chol = np.linalg.cholesky(np.reshape(leading_moment, (n_orb, n_orb)))
         # chol always returns complex arrays
         if not cmplx:
             chol = chol.real
@@ -476,7 +476,8 @@ def discretize_bath(delta_in, Nb, eps0=3, V0=None, tol=1e-15, maxiter=10000,
         eps0 = np.linspace(-eps0, eps0, Nb)
 
     # parameters for scipy must be a 1D array
-    parameters = np.concatenate([V0.view(float).flatten(), eps0])
+    if cmplx: V0 = V0.astype(complex)
+    parameters = np.concatenate([np.ascontiguousarray(V0).view(float).flatten(), eps0])
 
     # run the minimizer with method Nelder-Mead and optimize the hoppings and energies to given
     # tolerance
-- 
2.43.0


From 4e8a7d2bb1de52e0158b4a8450e7e370482cbac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 034/119] fix: Gf.x_data_view returned mesh points instead of
 their values

---
 python/triqs/gf/gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index 3cf771a..381ce14 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -774,7 +774,7 @@ class Gf(metaclass=AddMethod):
         """
         
         X = [x.imag for x in self.mesh] if isinstance(self.mesh, meshes.MeshImFreq) \
-            else [x for x in self.mesh]
+            else [x.value for x in self.mesh]
         
         X, data = np.array(X), self.data
         if x_window:
-- 
2.43.0


From 7183bbfac2d15e0d7f2aeb96f2e7ebd83a5f4a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 035/119] fix: inspect.getargspec does not exist any more (Fit,
 HilbertTransform, SumkDiscrete)

---
 python/triqs/dos/hilbert_transform.py | 2 +-
 python/triqs/fit/fit.py               | 2 +-
 python/triqs/sumk/sumk_discrete.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 0ea741d..b1ddb3a 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -101,7 +101,7 @@ class HilbertTransform:
         # case 2) Sigma is a function returning a Gf
         else:
             assert callable(Sigma), "If Sigma is not a Gf it must be a function"
-            assert len(inspect.getargspec(Sigma)[0]) == 1, "Sigma must be a function of a single variable"
+            assert len(inspect.getfullargspec(Sigma)[0]) == 1, "Sigma must be a function of a single variable"
             model = Sigma(self.dos.eps[0])
             Sigma_fnt = True
 
diff --git a/python/triqs/fit/fit.py b/python/triqs/fit/fit.py
index 8e3f17e..ebcb3dd 100644
--- a/python/triqs/fit/fit.py
+++ b/python/triqs/fit/fit.py
@@ -48,7 +48,7 @@ class Fit:
 
         """
         self.function, self.fname, p00 = fitter
-        assert len(ins.getargspec(self.function)[0])== len(p00) + 1, "error in number of parameters"
+        assert len(ins.getfullargspec(self.function)[0])== len(p00) + 1, "error in number of parameters"
         assert len(y_array) == len(x_array)
         assert len(y_array) > len (p00)
         errfunc = lambda x :  np.abs ( self.function(x_array,*x)  - y_array[:])
diff --git a/python/triqs/sumk/sumk_discrete.py b/python/triqs/sumk/sumk_discrete.py
index 62465f5..a20d036 100644
--- a/python/triqs/sumk/sumk_discrete.py
+++ b/python/triqs/sumk/sumk_discrete.py
@@ -115,7 +115,7 @@ class SumkDiscrete:
         # case 2) Sigma is a function returning a BlockGf
         else:
             assert callable(Sigma), "If Sigma is not a BlockGf it must be a function"
-            Sigma_Nargs = len(inspect.getargspec(Sigma)[0])
+            Sigma_Nargs = len(inspect.getfullargspec(Sigma)[0])
             assert Sigma_Nargs <= 2, "Sigma must be a function of k or of k and epsilon"
             if Sigma_Nargs == 1:
                 model = Sigma(self.bz_points[0])
-- 
2.43.0


From 1d2b87737e2c2d3de6e7c19665178ae3b047d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 036/119] fix: DOS.density for a chemical potential below the
 band

---
 python/triqs/dos/dos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/dos/dos.py b/python/triqs/dos/dos.py
index 3570c17..5a1ed68 100644
--- a/python/triqs/dos/dos.py
+++ b/python/triqs/dos/dos.py
@@ -97,6 +97,7 @@ name : string
         except:
             ind = self.eps.shape[0]
 
+        if ind == 0: return dens # mu is below the band
         de = self.eps[1]-self.eps[0]
         #for e,r in itertools.izip(self.eps[0:ind],self.rho[0:ind]):
         #    dens += r
-- 
2.43.0


From 1c07461a8597ebf8290918fccd1cbd7ecfb645b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 037/119] fix: DOS.density assumed equally spaced energies

---
 python/triqs/dos/dos.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/triqs/dos/dos.py b/python/triqs/dos/dos.py
index 5a1ed68..8ad5270 100644
--- a/python/triqs/dos/dos.py
+++ b/python/triqs/dos/dos.py
@@ -98,10 +98,8 @@ name : string
             ind = self.eps.shape[0]
 
         if ind == 0: return dens # mu is below the band
-        de = self.eps[1]-self.eps[0]
-        #for e,r in itertools.izip(self.eps[0:ind],self.rho[0:ind]):
-        #    dens += r
-        dens = (sum(self.rho[0:ind]) - self.rho[0]/2.0 - self.rho[ind-1]/2.0) * de
+        de = self.eps[1:ind] - self.eps[0:ind-1] # the points may not be equally spaced
+        dens = sum(de * (self.rho[0:ind-1] + self.rho[1:ind])) / 2.0
         #dens2 = dens + (self.rho[ind-1]/2.0 + self.rho[ind]/2.0) * de
         if (ind<self.eps.shape[0]): dens += (mu-self.eps[ind-1]) * (self.rho[ind-1] + self.rho[ind])/2.0
         return dens 
-- 
2.43.0


From 2773d5943f19a75fd79a859d97c528e4b2bd2c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 038/119] fix: HilbertTransform could not be copied or pickled

---
 python/triqs/dos/hilbert_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index b1ddb3a..8eeca76 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -46,7 +46,7 @@ class HilbertTransform:
     #-------------------------------------------------------------
 
     def __reduce__(self):
-        return self.__class__, (self.rho)
+        return self.__class__, (self.dos,)
 
     #-------------------------------------------------------------
 
-- 
2.43.0


From be0dc30eccc3204d35df594458357f9088f8e824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 039/119] fix: HilbertTransform, SumkDiscrete: a field given as
 an array failed

---
 python/triqs/dos/hilbert_transform.py | 4 ++--
 python/triqs/sumk/sumk_discrete.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 8eeca76..4fc3b8f 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -117,7 +117,7 @@ class HilbertTransform:
 
         if not(isinstance(self.dos, DOSFromFunction)):
             assert n_points_integral==None and test_convergence == None, " Those parameters can only be used with an dos_from_function"
-        if field !=None:
+        if field is not None:
             try:
                 result += field
             except:
@@ -138,7 +138,7 @@ class HilbertTransform:
             tmp << iOmega_n + mu + eta * 1j
             if not(Sigma_fnt):
                 tmp -= Sigma
-            if field != None: tmp -= field
+            if field is not None: tmp -= field
 
             # I slice all the arrays on the node. Cf reduce operation below.
             for d, e_h, e in zip(*[mpi.slice_array(A) for A in [self.rho_for_sum, eps_hat, self.dos.eps]]):
diff --git a/python/triqs/sumk/sumk_discrete.py b/python/triqs/sumk/sumk_discrete.py
index a20d036..77bde7e 100644
--- a/python/triqs/sumk/sumk_discrete.py
+++ b/python/triqs/sumk/sumk_discrete.py
@@ -142,7 +142,7 @@ class SumkDiscrete:
         tmp,tmp2 = G.copy(),G.copy()
         mupat = mu * numpy.identity(no, numpy.complex_)
         tmp << iOmega_n
-        if field != None: tmp -= field
+        if field is not None: tmp -= field
         if not Sigma_fnt: tmp -= Sigma  # substract Sigma once for all
 
         # Loop on k points...
-- 
2.43.0


From e7e566d18b33ce0ba933a47dc5fa1e87dbeb6ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 040/119] fix: HilbertTransform: n_points_integral and
 test_convergence always failed

---
 python/triqs/dos/hilbert_transform.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 4fc3b8f..2c97f5c 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -168,21 +168,21 @@ class HilbertTransform:
             if not(n_points_integral): # if not defined, use the defaults given at construction of the dos
                 n_points_integral=  len(self.dos.eps)
             else:
-                self.dos._DOS__f(n_points_integral)
+                self.dos._DOSFromFunction__f(n_points_integral)
                 self.__normalize()
 
             HT(result)
 
-            nloop, test = 1, 0
-            while test_convergence and nloop < 10 and (nloop == 1 or test > test_convergence):
-                if nloop>1:
-                    self.dos._DOS__f(n_points_integral)
-                    self.__normalize()
+            nloop, converged = 1, not test_convergence
+            while not converged and nloop < 10:
+                n_points_integral *=2
+                self.dos._DOSFromFunction__f(n_points_integral)
+                self.__normalize()
 
                 result_old = result.copy()
-                result = DOS.HilbertTransform(self, Sigma, mu, eta, epsilon_hat, result)
-                test = test_distance(result, result_old, test_convergence)
-                n_points_integral *=2
+                HT(result)
+                converged = test_distance(result, result_old, test_convergence)
+                nloop += 1
 
         else:  # Ordinary DOS
             HT(result)
-- 
2.43.0


From e6befb76ac5b077f8963575a73375a8e0eea3753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 041/119] fix: SumkDiscreteFromLattice: a shift Q always failed

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index 3741593..f279efe 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -111,13 +111,13 @@ class SumkDiscreteFromLattice (SumkDiscrete):
             raise IndexError("Summation method unknown")
 
         # A shift
-        if Q:
+        if Q is not None:
             try:
                 Q = np.array(Q)
                 assert len(Q.shape) ==1
             except:
                 raise RuntimeError("Q is not of correct type")
-            for k_index in range(self.N_kpts()):
+            for k_index in range(self.n_kpts()):
                 self.bz_points[k_index,:] +=Q
 
         # Compute the discretized hoppings from the Superlattice
-- 
2.43.0


From 6c47c57e9b1ee301742d4b359c954187a4ea3d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 042/119] fix: SumkDiscreteFromLattice: the sum over a patch
 always failed

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index f279efe..2657765 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -141,7 +141,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         """
 
         tritemp = np.array(patch._triangles)
-        ntri = len(tritemp)/3
+        ntri = len(tritemp)//3
         nk = n_bz*n_bz*ntri
         self.resize_arrays(nk)
 
@@ -172,6 +172,6 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         self.hopping[:,:,:] = self.SL.fourier(self.bz_points)
 
         if self.orthogonal_basis:
-            self.mu_pattern[:,:] =  self.SL.MuPattern[:,:]
+            self.mu_pattern[:,:] = np.identity(self.SL.n_orbitals)
         else:
             assert 0 , "not checked"
-- 
2.43.0


From 59848cf9ef39204dafa5d1f2c958a2585616ad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 043/119] fix: SumkDiscreteFromLattice: a copy had the wrong
 number of k points

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index 2657765..f3622be 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -53,7 +53,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
      #-------------------------------------------------------------
 
     def __reduce__(self):
-        return self.__class__,  (self.SL, self.patch, self.bz_weights.shape[0],self.method)
+        return self.__class__,  (self.SL, self.patch, self.n_points, self.method)
 
      #-------------------------------------------------------------
 
@@ -66,7 +66,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
               computes t(k+Q) instead of t(k) (useful for bare chi_0)
         """
         assert method in ["Riemann","Gauss"], "method %s is not recognized"%method
-        self.method = method
+        self.method, self.n_points = method, n_points
         self.resize_arrays(n_points)
         if self.patch:
             self.__Compute_Grid_One_patch(self.patch, n_points , method, Q)
-- 
2.43.0


From dfc6b25c2b6a2437eab33f2b1d80cd4f55686ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 044/119] fix: plotting a sequence of complex points always
 failed

---
 python/triqs/plot/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/plot/protocol.py b/python/triqs/plot/protocol.py
index 311af15..5fd14c7 100644
--- a/python/triqs/plot/protocol.py
+++ b/python/triqs/plot/protocol.py
@@ -70,7 +70,7 @@ def plot_protocol_apply(ob, opt_dict, xlims):
         Y = numpy.array([ob(x) for x in X])
     else:
         try: # generator x,y
-            X, Y = zip(*ob)
+            X, Y = map(numpy.array, zip(*ob))
         except:
             raise RuntimeError("Object cannot be plotted")
 
-- 
2.43.0


From 5090367749515dd794596895c10ee60cb291288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 045/119] fix: Fit: an initial guess given as an array always
 failed

---
 python/triqs/fit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/fit/fit.py b/python/triqs/fit/fit.py
index ebcb3dd..7f75e95 100644
--- a/python/triqs/fit/fit.py
+++ b/python/triqs/fit/fit.py
@@ -52,7 +52,7 @@ class Fit:
         assert len(y_array) == len(x_array)
         assert len(y_array) > len (p00)
         errfunc = lambda x :  np.abs ( self.function(x_array,*x)  - y_array[:])
-        self.param, success = leastsq(errfunc, p0 if p0 else p00 )
+        self.param, success = leastsq(errfunc, p0 if p0 is not None else p00 )
 
     def __str__ (self) : return (self.fname%tuple(self.param) or 'Fit').replace("+ -","-")
     def __repr__ (self) : return str(self)
-- 
2.43.0


From d2687e92ffab596878a54f8943c49ef474482326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 046/119] fix: Fit could stop far from the least-square
 solution

---
 python/triqs/fit/fit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/triqs/fit/fit.py b/python/triqs/fit/fit.py
index 7f75e95..9131fd8 100644
--- a/python/triqs/fit/fit.py
+++ b/python/triqs/fit/fit.py
@@ -51,7 +51,10 @@ class Fit:
         assert len(ins.getfullargspec(self.function)[0])== len(p00) + 1, "error in number of parameters"
         assert len(y_array) == len(x_array)
         assert len(y_array) > len (p00)
-        errfunc = lambda x :  np.abs ( self.function(x_array,*x)  - y_array[:])
+        def errfunc(x) :
+            # the absolute value is not differentiable where the curve crosses the data: only take it for complex data
+            d = self.function(x_array,*x)  - y_array[:]
+            return np.abs(d) if np.iscomplexobj(d) else d
         self.param, success = leastsq(errfunc, p0 if p0 is not None else p00 )
 
     def __str__ (self) : return (self.fname%tuple(self.param) or 'Fit').replace("+ -","-")
-- 
2.43.0


From 181ec56e7355c7b260a536822e1a320105035350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 047/119] fix: clebsch_gordan had the wrong sign for j1-j2+m3
 even and non-zero

---
 python/triqs/operators/util/U_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/operators/util/U_matrix.py b/python/triqs/operators/util/U_matrix.py
index 1c2f617..2933fa2 100644
--- a/python/triqs/operators/util/U_matrix.py
+++ b/python/triqs/operators/util/U_matrix.py
@@ -624,7 +624,7 @@ def clebsch_gordan(jm1, jm2, jm3):
               Clebsh-Gordan coefficient.
 
     """
-    norm = sqrt(2*jm3[0]+1)*(-1 if jm1[0]-jm2[0]+jm3[1] % 2 else 1)
+    norm = sqrt(2*jm3[0]+1)*(-1 if (jm1[0]-jm2[0]+jm3[1]) % 2 else 1)
     return norm*three_j_symbol(jm1,jm2,(jm3[0],-jm3[1]))
 
 def subarray(a,idxlist,n=None) :
-- 
2.43.0


From 9ec901d188ba765410933f5dc9638460167016b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 048/119] fix: spherical_to_cubic(0) was the zero matrix

---
 python/triqs/operators/util/U_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/operators/util/U_matrix.py b/python/triqs/operators/util/U_matrix.py
index 2933fa2..d9958d4 100644
--- a/python/triqs/operators/util/U_matrix.py
+++ b/python/triqs/operators/util/U_matrix.py
@@ -358,6 +358,7 @@ def spherical_to_cubic(l, convention='triqs'):
         raise ValueError("spherical_to_cubic: [wien2k, wannier90, qe] convention implemented only for l=0,1,2")
     if l == 0:
         cubic_names = ("s")
+        T[0,0] = 1.0
     elif l == 1:
         if convention == 'wannier90' or convention == 'qe':
             cubic_names = ("z","x","y")
-- 
2.43.0


From f442e2f9a7f31135f9b108ad679976d1d6bf75ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:23 +0000
Subject: [PATCH 049/119] fix: U_matrix_slater with only one of U_int and
 J_hund failed with a TypeError

---
 python/triqs/operators/util/U_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/operators/util/U_matrix.py b/python/triqs/operators/util/U_matrix.py
index d9958d4..3efe971 100644
--- a/python/triqs/operators/util/U_matrix.py
+++ b/python/triqs/operators/util/U_matrix.py
@@ -82,7 +82,7 @@ def U_matrix_slater(l, radial_integrals=None, U_int=None, J_hund=None, basis='sp
     """
 
     # Check all necessary information is present and consistent
-    if radial_integrals is None and (U_int is None and J_hund is None):
+    if radial_integrals is None and (U_int is None or J_hund is None):
         raise ValueError("U_matrix: provide either the radial_integrals or U_int and J_hund.")
     if radial_integrals is None and (U_int is not None and J_hund is not None):
         radial_integrals = U_J_to_radial_integrals(l, U_int, J_hund)
-- 
2.43.0


From 31dd238378cf121845fcd78b874069ac25411367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 050/119] fix: h_int_density, h_int_kanamori: no term for an
 orbital with itself, as documented

---
 python/triqs/operators/util/hamiltonians.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/triqs/operators/util/hamiltonians.py b/python/triqs/operators/util/hamiltonians.py
index d273a39..70706af 100644
--- a/python/triqs/operators/util/hamiltonians.py
+++ b/python/triqs/operators/util/hamiltonians.py
@@ -148,6 +148,8 @@ def h_int_kanamori(spin_names,n_orb,U,Uprime,J_hund,off_diag=None,map_operator_s
     if H_dump: H_dump_file.write("Density-density terms:" + '\n')
     for s1, s2 in product(spin_names,spin_names):
         for a1, a2 in product(range(n_orb), range(n_orb)):
+            if (s1==s2 and a1==a2):
+                continue
             if (s1==s2):
                 U_val = U[a1,a2]
             else:
@@ -243,6 +245,8 @@ def h_int_density(spin_names,n_orb,U,Uprime,off_diag=None,map_operator_structure
     if H_dump: H_dump_file.write("Density-density terms:" + '\n')
     for s1, s2 in product(spin_names,spin_names):
         for a1, a2 in product(range(n_orb),range(n_orb)):
+            if (s1==s2 and a1==a2):
+                continue
             if (s1==s2):
                 U_val = U[a1,a2]
             else:
-- 
2.43.0


From 4ccd3f92a8e53681c2c35bda2b47a8a6bdbcd66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 051/119] fix: h_int_slater: the dumped annihilation operators
 had the wrong orbitals, the dumped values no imaginary part

---
 python/triqs/operators/util/hamiltonians.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/operators/util/hamiltonians.py b/python/triqs/operators/util/hamiltonians.py
index 70706af..e97fcca 100644
--- a/python/triqs/operators/util/hamiltonians.py
+++ b/python/triqs/operators/util/hamiltonians.py
@@ -91,9 +91,9 @@ def h_int_slater(spin_names,n_orb,U_matrix,off_diag=None,map_operator_structure=
             if H_dump and not H_term.is_zero():
                 H_dump_file.write('%s'%(mkind(s1,a1),) + '\t')
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
-                H_dump_file.write('%s'%(mkind(s2,a3),) + '\t')
-                H_dump_file.write('%s'%(mkind(s1,a4),) + '\t')
-                H_dump_file.write(str(U_val.real) + '\n')
+                H_dump_file.write('%s'%(mkind(s2,a4),) + '\t')
+                H_dump_file.write('%s'%(mkind(s1,a3),) + '\t')
+                H_dump_file.write(str(U_val if complex else U_val.real) + '\n')
 
     return H
 
-- 
2.43.0


From 9fe5e64144da9556daa9b50fdb0ad08b9249ad02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:25 +0000
Subject: [PATCH 052/119] fix: h_int_kanamori: the pair-hopping terms were
 dumped with the wrong sign

---
 python/triqs/operators/util/hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/operators/util/hamiltonians.py b/python/triqs/operators/util/hamiltonians.py
index e97fcca..407c6a2 100644
--- a/python/triqs/operators/util/hamiltonians.py
+++ b/python/triqs/operators/util/hamiltonians.py
@@ -196,7 +196,7 @@ def h_int_kanamori(spin_names,n_orb,U,Uprime,J_hund,off_diag=None,map_operator_s
             if H_dump and not H_term.is_zero():
                 H_dump_file.write('%s'%(mkind(s1,a1),) + '\t')
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
-                H_dump_file.write(str(-J_hund) + '\n')
+                H_dump_file.write(str(J_hund) + '\n')
 
     return H
 
-- 
2.43.0


From f860d01ad3ef9fe9fab470b5a4c6fef512853144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 053/119] fix: assert_arrays_are_close broadcast arrays of
 different shapes, and failed on empty ones

---
 python/triqs/utility/comparison_tests.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/triqs/utility/comparison_tests.py b/python/triqs/utility/comparison_tests.py
index 54f46bb..f9c2a2b 100644
--- a/python/triqs/utility/comparison_tests.py
+++ b/python/triqs/utility/comparison_tests.py
@@ -20,7 +20,8 @@
 import numpy as np
 
 def assert_arrays_are_close(a, b, precision = 1.e-6):
-    d = np.amax(np.abs(a - b))
+    assert np.shape(a) == np.shape(b), "Arrays have different shapes: %s and %s"%(np.shape(a), np.shape(b))
+    d = np.amax(np.abs(a - b)) if np.size(a) > 0 else 0
     assert  d< precision, "Arrays are different. Difference is %s.\n %s \n\n --------- \n\n %s"%(d,a,b)
 
 def assert_array_close_to_scalar(a, x, precision = 1.e-6):
-- 
2.43.0


From 324c3c32e1a69368143c0413b0157d2a0ca541e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 054/119] fix: h5diff stopped with a KeyError at a missing key

---
 python/triqs/utility/h5diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index 6f451ae..fb7b7c3 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -37,9 +37,9 @@ def compare(key, a, b, level, precision):
         assert t == type(b), "%s have different types"%key
 
         if t == dict or isinstance(a, HDFArchiveGroup) :
-            if list(a.keys()) != list(b.keys()):
+            if set(a.keys()) != set(b.keys()):
                 failures.append("Two archive groups '%s' with different keys \n %s \n vs\n %s"%(key,list(a.keys()), list(b.keys())))
-            for k in a.keys():
+            for k in (k for k in a.keys() if k in b.keys()):
                 compare(key + '/'+ k, a[k], b[k], level + 1, precision)
 
         # The TRIQS object which are comparable starts here ....
-- 
2.43.0


From c8b30c0e0261066dd95ee53878a926094be22ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 055/119] fix: h5diff used the precision for Green's functions
 only

---
 python/triqs/utility/h5diff.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index fb7b7c3..8c19f2f 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -54,7 +54,7 @@ def compare(key, a, b, level, precision):
             assert_block2_gfs_are_close(a,b,precision)
 
         elif t in [Operator]:
-            assert (a-b).is_zero(), "Many body operators not equal"
+            assert all(abs(coef) < precision for monomial, coef in a-b), "Many body operators not equal"
 
         # elif t in [BlockMatrix]:
             # for i in range(len(a.matrix_vec)):
@@ -62,10 +62,10 @@ def compare(key, a, b, level, precision):
 
         # ... until here
         elif isinstance(a, numpy.ndarray):
-            assert_arrays_are_close(a,b)
+            assert_arrays_are_close(a, b, precision)
 
         elif t in [int, float, complex]:
-            assert abs(a-b) < 1.e-10, " a-b = %"%(a-b)
+            assert abs(a-b) < precision, " a-b = %s"%(a-b)
 
         elif t in [bool, numpy.bool_]:
            assert a==b
-- 
2.43.0


From b8b7889c4b5a288fe4c91c4ea49ee96abe61bf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 056/119] fix: h5diff reported the failures of earlier
 comparisons again

---
 python/triqs/utility/h5diff.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/utility/h5diff.py b/python/triqs/utility/h5diff.py
index 8c19f2f..52f1a56 100644
--- a/python/triqs/utility/h5diff.py
+++ b/python/triqs/utility/h5diff.py
@@ -87,6 +87,7 @@ def compare(key, a, b, level, precision):
         failures.append("Comparison of key '%s'  has failed:\n """%key + mess)
 
 def h5diff(f1, f2, precision= 1.e-6):
+    failures.clear()
     compare('', HDFArchive(f1,'r'), HDFArchive(f2,'r'), 0, precision)
     if failures :
         print ('-'*50, file=sys.stderr )
-- 
2.43.0


From cd0a4c499624695355dd798bc8068c48f43806c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:23 +0000
Subject: [PATCH 057/119] fix: TBSuperLattice did not find the cluster sites of
 a supercell with negative vectors

---
 python/triqs/lattice/super_lattice.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 1b36e90..e3c7f54 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -73,10 +73,8 @@ class TBSuperLattice(TBLattice):
             self.__cluster_sites = []
             #We tile the super-cell with the tb_lattice points and retains
             # the points inside it and store it.
-            if ndim==1:  a=(max(self._M[0,:]), 0, 0 )
-            elif ndim==2:  a=(2*max(self._M[0,:]), 2*max(self._M[1,:]), 0 )
-            elif ndim==3: a= (3*max(self._M[0,:]), 3*max(self._M[1,:]), 3*max(self._M[2,:]))
-            else: raise ValueError("ndim is not between 1 and 3 !!")
+            if not 1 <= ndim <= 3: raise ValueError("ndim is not between 1 and 3 !!")
+            a = [int(sum(abs(self._M[i,:]))) for i in range(ndim)] + [0]*(3 - ndim)
             r = lambda i:  list(range(-a[i] , a[i]+1))
             for nx in r(0):
                 for ny in r(1):
-- 
2.43.0


From 6e3b8130b033b6a2fda3f55f05ebc7c228549e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:23 +0000
Subject: [PATCH 058/119] fix: TBSuperLattice with given cluster sites, and
 change_coordinates_SL_to_L, failed

---
 python/triqs/lattice/super_lattice.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index e3c7f54..180e4f5 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -67,8 +67,8 @@ class TBSuperLattice(TBLattice):
         self.Norb = tb_lattice.n_orbitals * Ncluster_sites
 
         # cluster_sites computation
-        if cluster_sites!=None:
-            self.__cluster_sites = list(cluster_sites)[:]
+        if cluster_sites is not None:
+            self.__cluster_sites = [[int(x) for x in pos] for pos in cluster_sites]
         else: # Computes the position of the cluster automatically
             self.__cluster_sites = []
             #We tile the super-cell with the tb_lattice points and retains
@@ -140,14 +140,15 @@ class TBSuperLattice(TBLattice):
 
     def change_coordinates_SL_to_L(self, R , alpha):
         """Given a point in the supercell R, site (number) alpha, it computes its position on the tb_lattice in lattice coordinates"""
-        return numpy.dot (self._M, numpy.array(R)) + self.__cluster_sites[alpha,:]
+        return numpy.dot (self._M, numpy.array(R)) + self.__cluster_sites[alpha]
 
     def change_coordinates_L_to_SL(self, x):
         """Given a point on the tb_lattice in lattice coordinates, returns its coordinates (R, alpha) in the Superlattice"""
-        aux  = numpy.dot(self._Mtilde, numpy.array(x))
-        R = aux // self.Ncluster_sites
-        dx = list (x - numpy.dot (self._M, R) ) # force int ?
-        return tuple(R), self.__cluster_sites.index(dx)
+        for alpha, pos in enumerate(self.__cluster_sites):
+            aux = numpy.dot(self._Mtilde, numpy.array(x) - numpy.array(pos))
+            if not (aux % self.Ncluster_sites).any():
+                return tuple(int(r) for r in aux // self.Ncluster_sites), alpha
+        raise ValueError("The cluster sites are not inequivalent")
 
     def pack_index_site_orbital(self, n_site, n_orbital):
         """ nsite and n_orbital must start at 0"""
-- 
2.43.0


From dd031a3f0436db8e77aaab9105c0f4c89487263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:23 +0000
Subject: [PATCH 059/119] fix: TBSuperLattice(...,
 remove_internal_hoppings=True) failed with an AttributeError

---
 python/triqs/lattice/super_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 180e4f5..4e0826b 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -132,7 +132,7 @@ class TBSuperLattice(TBLattice):
             for disp, t in list(D1.items()):
                 R, alpha = self.change_coordinates_L_to_SL(numpy.array(CS)+numpy.array(disp))
                 if R not in Res: Res[R] = create_zero() if create_zero else numpy.zeros((self.Norb, self.Norb), dtype = type(t[0,0]))
-                if not(remove_internal) or R!= self.tb_lattice.ndim*(0, ):
+                if not(remove_internal) or R!= self.__BaseLattice.ndim*(0, ):
                     for orb1 in range(norb):
                         for orb2 in range(norb):
                             Res[R][pack(nsite, orb1), pack(alpha, orb2)] += t[orb1, orb2]
-- 
2.43.0


From 5d0627c579f2845acd6f2ea2c44294d2a430f732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:23 +0000
Subject: [PATCH 060/119] fix: a TBSuperLattice could not be copied or pickled

---
 python/triqs/lattice/super_lattice.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 4e0826b..f28d450 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -114,10 +114,8 @@ class TBSuperLattice(TBLattice):
         assert self.Norb == self.n_orbitals
 
 
-    __HDF_reduction__ = ['__BaseLattice', '__super_lattice_units', '__cluster_sites', '__remove_internal_hoppings']
-
     def __reduce__ (self):
-        return tuple([getattr(self, x) for x in self.__HDF_reduction__])
+        return self.__class__, (self.__BaseLattice, self.__super_lattice_units, self.__cluster_sites, self.__remove_internal_hoppings)
 
     def fold(self, D1, remove_internal=False, create_zero = None):
         """ Input: a function  r-> f(r) on the tb_lattice given as a dictionnary
-- 
2.43.0


From 69730a85fed19fbca6a0bdad186262a5de96a214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:23 +0000
Subject: [PATCH 061/119] fix: the hopping matrices read from a wannier90 file
 were transposed

---
 python/triqs/lattice/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/triqs/lattice/utils.py b/python/triqs/lattice/utils.py
index e040ef7..28bf98c 100644
--- a/python/triqs/lattice/utils.py
+++ b/python/triqs/lattice/utils.py
@@ -112,7 +112,8 @@ def parse_hopping_from_wannier90_hr_dat(filename):
     dat = np.loadtxt(StringIO(dat))
     dat = dat.reshape(nrpts, num_wann, num_wann, 7)
     R = dat[:, 0, 0, 0:3].astype(int)
-    hopp = dat[..., 5] + 1.j * dat[..., 6]
+    # The index m of H_mn(R) runs fastest
+    hopp = (dat[..., 5] + 1.j * dat[..., 6]).transpose(0, 2, 1)
 
     # Account for degeneracy of the Wigner-Seitz points
     hopp /= deg[:, None, None]
-- 
2.43.0


From 63787a63cb1e4368479764a82477437b6babaf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:23 +0000
Subject: [PATCH 062/119] fix: LatticePoint could not be converted to an array
 of given type

---
 python/triqs/lattice/point.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/lattice/point.py b/python/triqs/lattice/point.py
index 4d84dfa..0679fc8 100644
--- a/python/triqs/lattice/point.py
+++ b/python/triqs/lattice/point.py
@@ -50,8 +50,8 @@ class LatticePoint:
         if self._value is None: self._value = self.lattice.lattice_to_real_coordinates(self.index)
         return self._value
 
-    def __array__(self):
-        return self.value
+    def __array__(self, dtype=None):
+        return numpy.asarray(self.value, dtype=dtype)
 
     def __add__(self, other):
         if isinstance(other, LatticePoint):
-- 
2.43.0


From 57b1a479d83e6016b9c80e89de758312ac3a6a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 063/119] fix: make_time_pt(beta) converted an out of range
 double to an integer and returned 0

---
 c++/triqs/utility/time_pt.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/utility/time_pt.hpp b/c++/triqs/utility/time_pt.hpp
index 17f9463..f2a493e 100644
--- a/c++/triqs/utility/time_pt.hpp
+++ b/c++/triqs/utility/time_pt.hpp
@@ -165,8 +165,9 @@ namespace triqs {
       /// ??
       time_pt make_time_pt(double x) const {
         EXPECTS(0 <= x && x <= beta);
-        uint64_t n = static_cast<double>(time_pt::Nmax) * std::min(1.0, (x / beta));
-        return time_pt(n, beta);
+        double n = static_cast<double>(time_pt::Nmax) * (x / beta);
+        // static_cast<double>(Nmax) is rounded up to Nmax + 1
+        return time_pt(n < static_cast<double>(time_pt::Nmax) ? static_cast<uint64_t>(n) : time_pt::Nmax, beta);
       }
     };
   } // namespace utility
-- 
2.43.0


From 096c28860933b37720925fdaf727f43199d581b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:34 +0000
Subject: [PATCH 064/119] fix: timer: a second start lost, a second stop
 counted twice the time elapsed

---
 c++/triqs/utility/timer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/utility/timer.hpp b/c++/triqs/utility/timer.hpp
index ba32263..3c5ce14 100644
--- a/c++/triqs/utility/timer.hpp
+++ b/c++/triqs/utility/timer.hpp
@@ -36,10 +36,12 @@ namespace triqs {
 
       public:
       void start() {
+        if (running) return;
         running    = true;
         start_time = clock_t::now();
       }
       void stop() {
+        if (!running) return;
         total_time += clock_t::now() - start_time;
         running = false;
       }
-- 
2.43.0


From 8a081fb16ed57d0a1c84466397270efb175d64a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 065/119] fix: space_partition: the elements of Hyb overwrote
 the stored matrix elements of H

---
 c++/triqs/hilbert_space/space_partition.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/space_partition.hpp b/c++/triqs/hilbert_space/space_partition.hpp
index b69e5ba..2e04b1e 100644
--- a/c++/triqs/hilbert_space/space_partition.hpp
+++ b/c++/triqs/hilbert_space/space_partition.hpp
@@ -72,6 +72,7 @@ namespace triqs {
         for (idx_t i = 0; i < size; ++i) {
           tmp_state(i)        = amplitude_t(1);
           state_t final_state = H(tmp_state);
+          bool store          = store_matrix_elements;
 
           auto mapping = [&](idx_t f, amplitude_t amplitude) {
             using triqs::utility::is_zero;
@@ -80,7 +81,7 @@ namespace triqs {
             auto f_subspace = subspaces.find_set(f);
             if (i_subspace != f_subspace) subspaces.link(i_subspace, f_subspace);
 
-            if (store_matrix_elements) matrix_elements[std::make_pair(i, f)] = amplitude;
+            if (store) matrix_elements[std::make_pair(i, f)] = amplitude;
           };
 
           // Iterate over non-zero final amplitudes
@@ -89,6 +90,7 @@ namespace triqs {
 
           // redo for additionnal Hyb
           if (not Hyb.is_empty()) {
+            store       = false; // the matrix elements are those of H only
             final_state = Hyb(tmp_state);
             foreach (final_state, mapping)
               ;
-- 
2.43.0


From dbd8818d307ab59537494842c2a93a535154800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:58 +0000
Subject: [PATCH 066/119] fix: space_partition: merged subspaces were not
 always connected one to one

---
 c++/triqs/hilbert_space/space_partition.hpp | 64 ++++++++-------------
 1 file changed, 24 insertions(+), 40 deletions(-)

diff --git a/c++/triqs/hilbert_space/space_partition.hpp b/c++/triqs/hilbert_space/space_partition.hpp
index 2e04b1e..ed495e5 100644
--- a/c++/triqs/hilbert_space/space_partition.hpp
+++ b/c++/triqs/hilbert_space/space_partition.hpp
@@ -23,6 +23,7 @@
 #include <set>
 #include <map>
 #include <utility>
+#include <vector>
 #include <triqs/utility/numeric_ops.hpp>
 #include <boost/pending/disjoint_sets.hpp>
 
@@ -125,18 +126,16 @@ namespace triqs {
 
         // Fill connection multimaps
         for (idx_t i = 0; i < size; ++i) {
-          tmp_state(i)    = amplitude_t(1);
-          auto i_subspace = subspaces.find_set(i);
+          tmp_state(i) = amplitude_t(1);
 
-          auto fill_conn = [this, i, i_subspace, store_matrix_elements](operator_t const &op, std::multimap<idx_t, idx_t> &conn,
+          auto fill_conn = [this, i, store_matrix_elements](operator_t const &op, std::multimap<idx_t, idx_t> &conn,
                                                                         matrix_element_map_t &elem) {
             state_t final_state = op(tmp_state);
             // Iterate over non-zero final amplitudes
             foreach (final_state, [&](idx_t f, amplitude_t amplitude) {
               using triqs::utility::is_zero;
               if (is_zero(amplitude)) return;
-              auto f_subspace = subspaces.find_set(f);
-              conn.insert({i_subspace, f_subspace});
+              conn.insert({i, f});
               if (store_matrix_elements) elem[{i, f}] = amplitude;
             })
               ;
@@ -148,42 +147,25 @@ namespace triqs {
           tmp_state(i) = amplitude_t(0.);
         }
 
-        // 'Zigzag' traversal algorithm
-        while (!Cd_connections.empty()) {
-
-          // Take one C^+ - connection
-          // C^+|lower_subspace> = |upper_subspace>
-          idx_t lower_subspace, upper_subspace;
-          std::tie(lower_subspace, upper_subspace) = *std::begin(Cd_connections);
-
-          // - Reveals all subspaces reachable from lower_subspace by application of
-          //   a 'zigzag' product C^+ C C^+ C C^+ ... of any length.
-          // - Removes all visited connections from Cd_connections/C_connections.
-          // - Merges lower_subspace with all subspaces generated from lower_subspace by application of (C C^+)^(2*n).
-          // - Merges upper_subspace with all subspaces generated from upper_subspace by application of (C^+ C)^(2*n).
-          std::function<void(idx_t, bool)> zigzag_traversal = [this, lower_subspace, upper_subspace, &Cd_connections, &C_connections,
-                                                               &zigzag_traversal](idx_t i_subspace, // find all connections starting from i_subspace
-                                                                                  bool upwards      // if true, C^+ connection, otherwise C connection
-                                                              ) {
-            std::multimap<idx_t, idx_t>::iterator it;
-            while ((it = (upwards ? Cd_connections : C_connections).find(i_subspace)) != (upwards ? Cd_connections : C_connections).end()) {
-
-              auto f_subspace = it->second;
-              (upwards ? Cd_connections : C_connections).erase(it);
-
-              if (upwards)
-                subspaces.link(f_subspace, upper_subspace);
-              else
-                subspaces.link(f_subspace, lower_subspace);
-
-              // Recursively apply to all found f_subspace's with a 'flipped' direction
-              zigzag_traversal(f_subspace, !upwards);
+        // These connections, and those of the operators treated before, have to stay one-to-one
+        connections.push_back(std::move(Cd_connections));
+        connections.push_back(std::move(C_connections));
+
+        // Merge the subspaces connected to the same subspace by one of the operators, until there are none left.
+        // Merging subspaces may require another merge for any of the operators.
+        bool is_merged;
+        do {
+          is_merged = false;
+          for (auto const &conn : connections) {
+            std::map<idx_t, idx_t> target; // the subspace each of the subspaces is mapped to
+            for (auto const &[i, f] : conn) {
+              auto [it, is_new] = target.insert({subspaces.find_set(i), f});
+              if (is_new or subspaces.find_set(it->second) == subspaces.find_set(f)) continue;
+              subspaces.link(it->second, f);
+              is_merged = true;
             }
-          };
-
-          // Apply to all C^+ connections starting from lower_subspace
-          zigzag_traversal(lower_subspace, true);
-        }
+          }
+        } while (is_merged);
 
         _update_index();
 
@@ -273,6 +255,8 @@ namespace triqs {
       boost::disjoint_sets_with_storage<> subspaces;
       // Matrix elements of the Hamiltonian
       matrix_element_map_t matrix_elements;
+      // Connections between the basis states, for each of the operators passed to merge_subspaces
+      std::vector<std::multimap<idx_t, idx_t>> connections;
       // Map representative basis state to subspace index
       std::map<idx_t, idx_t> representative_to_index;
     };
-- 
2.43.0


From 933baca4a976bd4237243e19dbd0211ffe55785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 067/119] fix: A -= A erased the monomials of the many body
 operator being iterated on

---
 c++/triqs/operators/many_body_operator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c++/triqs/operators/many_body_operator.hpp b/c++/triqs/operators/many_body_operator.hpp
index 191cfbf..bcf3815 100644
--- a/c++/triqs/operators/many_body_operator.hpp
+++ b/c++/triqs/operators/many_body_operator.hpp
@@ -250,6 +250,10 @@ namespace triqs {
       }
 
       many_body_operator_generic &operator-=(many_body_operator_generic const &op) {
+        if (this == &op) { // the loop below erases monomials
+          monomials.clear();
+          return *this;
+        }
         bool is_new_monomial;
         typename monomials_map_t::iterator it;
         for (auto const &m : op.monomials) {
-- 
2.43.0


From abfa5dd1efd8f13d2eb8671d1825798cd6145c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 068/119] fix: large integer indices of operators were printed
 truncated to int

---
 c++/triqs/operators/many_body_operator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/operators/many_body_operator.cpp b/c++/triqs/operators/many_body_operator.cpp
index 41d5ba0..3f37bf0 100644
--- a/c++/triqs/operators/many_body_operator.cpp
+++ b/c++/triqs/operators/many_body_operator.cpp
@@ -34,7 +34,7 @@ namespace triqs {
     struct print_visitor { // TODO C17 use generic lambda + if constexpr
       std::ostream &os;
       void operator()(std::string const &x) { os << '\'' << x << '\''; }
-      void operator()(int i) { os << i; }
+      void operator()(long i) { os << i; }
     };
 
     std::ostream &operator<<(std::ostream &os, canonical_ops_t const &op) {
-- 
2.43.0


From 98f83daa1ae500c61c529de39e01553c78f5d679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 069/119] fix: reading an operator from HDF5 with its operator
 set kept the previous content

---
 c++/triqs/operators/many_body_operator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/operators/many_body_operator.cpp b/c++/triqs/operators/many_body_operator.cpp
index 3f37bf0..18e3125 100644
--- a/c++/triqs/operators/many_body_operator.cpp
+++ b/c++/triqs/operators/many_body_operator.cpp
@@ -162,6 +162,7 @@ namespace triqs {
 
       auto r_fops = fops.data(); // the data vector v[int] -> indices inverting fops[indices] -> n
 
+      op.monomials.clear();
       for (auto const &mon : datavec) {
         monomial_t monomial;                                      // vector of canonical_ops_t
         for (int i : mon.op_indices) {                            // loop over the index of the C, C^ ops of the monomial
-- 
2.43.0


From a406bb56e169ae1d303adfffc308a132a805b2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 070/119] fix: large integer indices of operators were
 truncated to int in HDF5

---
 c++/triqs/hilbert_space/fundamental_operator_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/hilbert_space/fundamental_operator_set.cpp b/c++/triqs/hilbert_space/fundamental_operator_set.cpp
index 69c0d05..d641218 100644
--- a/c++/triqs/hilbert_space/fundamental_operator_set.cpp
+++ b/c++/triqs/hilbert_space/fundamental_operator_set.cpp
@@ -27,14 +27,14 @@ namespace triqs {
 
       // a little visitor for reduction to string
       struct variant_visitor {
-        std::string operator()(int i) const { return "i" + std::to_string(i); }
+        std::string operator()(long i) const { return "i" + std::to_string(i); }
         std::string operator()(std::string const &s) const { return "s" + s; }
       };
 
       // decode the string
       std::variant<long, std::string> string_to_variant(std::string const &s) {
         switch (s[0]) {
-          case 'i': return std::stoi(s.c_str() + 1); // the variant is an int. Skip the first char and recover the int
+          case 'i': return std::stol(s.c_str() + 1); // the variant is an int. Skip the first char and recover the int
           case 's': return s.c_str() + 1;            // the variant is a string. Just skip the first char
           default: TRIQS_RUNTIME_ERROR << "Variant indices absent in h5 read";
         }
-- 
2.43.0


From dd2ec5fa2f0f6cc6302d8bf5d0b26a701dd8dbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:14 +0000
Subject: [PATCH 071/119] fix: fundamental_operator_set built from a vector
 kept repeated indices

---
 c++/triqs/hilbert_space/fundamental_operator_set.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/fundamental_operator_set.hpp b/c++/triqs/hilbert_space/fundamental_operator_set.hpp
index 2375dd2..7dcbda5 100644
--- a/c++/triqs/hilbert_space/fundamental_operator_set.hpp
+++ b/c++/triqs/hilbert_space/fundamental_operator_set.hpp
@@ -85,7 +85,9 @@ namespace triqs::hilbert_space {
     /**
      * @param v Vector of indices
      */
-    explicit fundamental_operator_set(data_t const &v) : vec(v) {}
+    explicit fundamental_operator_set(data_t const &v) {
+      for (auto const &i : v) insert_from_indices_t(i);
+    }
 
     /// Construct fundamental_operator_set on a GF structure
     /**
-- 
2.43.0


From aabfbea2b77b308ad9ca4c4c063d9160dcaeb10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 072/119] fix: fermionic sign of imperative_operator with more
 than 16 orbitals

---
 c++/triqs/hilbert_space/imperative_operator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/hilbert_space/imperative_operator.hpp b/c++/triqs/hilbert_space/imperative_operator.hpp
index 8009372..5ee1e92 100644
--- a/c++/triqs/hilbert_space/imperative_operator.hpp
+++ b/c++/triqs/hilbert_space/imperative_operator.hpp
@@ -174,8 +174,8 @@ namespace triqs {
 
       static bool parity_number_of_bits(uint64_t v) {
         // http://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetNaive
-        // v ^= v >> 16;
-        // only ok until 16 orbitals ! assert this or put the >> 16
+        v ^= v >> 32;
+        v ^= v >> 16;
         v ^= v >> 8;
         v ^= v >> 4;
         v ^= v >> 2;
-- 
2.43.0


From c1d40010c82766ba0ed21c161171300d8f6f0476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 073/119] fix: index of a Fock state outside of a Hilbert
 subspace dereferenced the end of the map

---
 c++/triqs/hilbert_space/hilbert_space.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/hilbert_space.hpp b/c++/triqs/hilbert_space/hilbert_space.hpp
index 85e5560..57699c6 100644
--- a/c++/triqs/hilbert_space/hilbert_space.hpp
+++ b/c++/triqs/hilbert_space/hilbert_space.hpp
@@ -208,7 +208,11 @@ namespace triqs {
    @param f Fock state in question
    @return State index
  */
-      int get_state_index(fock_state_t f) const { return fock_to_index.find(f)->second; }
+      int get_state_index(fock_state_t f) const {
+        auto it = fock_to_index.find(f);
+        if (it == fock_to_index.end()) TRIQS_RUNTIME_ERROR << "This Fock state does not belong to the Hilbert subspace, f = " << f;
+        return it->second;
+      }
 
       /// Check if a given Fock state belongs to this subspace
       /**
-- 
2.43.0


From 9899d639e7d9d987b76025efaf61743eeb337c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 074/119] fix: Fock state of a set of indices overflowed int
 with more than 31 orbitals

---
 c++/triqs/hilbert_space/hilbert_space.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/hilbert_space.hpp b/c++/triqs/hilbert_space/hilbert_space.hpp
index 57699c6..712b26c 100644
--- a/c++/triqs/hilbert_space/hilbert_space.hpp
+++ b/c++/triqs/hilbert_space/hilbert_space.hpp
@@ -107,7 +107,7 @@ namespace triqs {
  */
       fock_state_t get_fock_state(fundamental_operator_set const &fops, std::set<fundamental_operator_set::indices_t> const &indices) const {
         fock_state_t f = 0;
-        for (auto const &index : indices) f += 1 << fops[index];
+        for (auto const &index : indices) f += fock_state_t(1) << fops[index];
         return f;
       }
 
-- 
2.43.0


From c12fb17c90c6300c372a16dd0323609ecbdc80aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 075/119] fix: constant access to the amplitudes of a map-based
 state did not compile

---
 c++/triqs/hilbert_space/state.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/state.hpp b/c++/triqs/hilbert_space/state.hpp
index 94c2ddd..254c1b5 100644
--- a/c++/triqs/hilbert_space/state.hpp
+++ b/c++/triqs/hilbert_space/state.hpp
@@ -120,7 +120,11 @@ namespace triqs {
    @param i index of the requested amplitude
    @return Constant reference to the requested amplitude
   */
-      value_type const &operator()(fock_state_t i) const { return ampli[i]; }
+      value_type const &operator()(fock_state_t i) const {
+        static const value_type zero(0);
+        auto it = ampli.find(i);
+        return it != ampli.end() ? it->second : zero;
+      }
 
       /// In-place addition of another state
       /**
-- 
2.43.0


From d6b5a5459186f8411c632be5c0f723c128b1a29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:25 +0000
Subject: [PATCH 076/119] fix: projection of a state to a smaller full Hilbert
 space wrote out of bounds

---
 c++/triqs/hilbert_space/state.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/state.hpp b/c++/triqs/hilbert_space/state.hpp
index 254c1b5..eb510ac 100644
--- a/c++/triqs/hilbert_space/state.hpp
+++ b/c++/triqs/hilbert_space/state.hpp
@@ -391,7 +391,10 @@ namespace triqs {
     template <typename TargetState, typename OriginalState> TargetState project(OriginalState const &psi, hilbert_space const &proj_hs) {
       TargetState proj_psi(proj_hs);
       auto const &hs = psi.get_hilbert();
-      foreach (psi, [&](int i, typename OriginalState::value_type v) { proj_psi(hs.get_fock_state(i)) = v; })
+      foreach (psi, [&](int i, typename OriginalState::value_type v) {
+        auto f = hs.get_fock_state(i);
+        if (proj_hs.has_state(f)) proj_psi(proj_hs.get_state_index(f)) = v;
+      })
         ;
       return proj_psi;
     }
-- 
2.43.0


From 67fbe26a92f6b6b3db6a40748bcc59317db18fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:37 +0000
Subject: [PATCH 077/119] fix: imperative_operator on subspaces with monomials
 whose contributions outside of the target cancel

---
 c++/triqs/hilbert_space/imperative_operator.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/hilbert_space/imperative_operator.hpp b/c++/triqs/hilbert_space/imperative_operator.hpp
index 5ee1e92..11cae2f 100644
--- a/c++/triqs/hilbert_space/imperative_operator.hpp
+++ b/c++/triqs/hilbert_space/imperative_operator.hpp
@@ -207,7 +207,10 @@ namespace triqs {
       template <typename StateType, typename... Args> StateType operator()(StateType const &st, Args &&...args) const {
 
         StateType target_st = get_target_st(st, std::integral_constant<bool, UseMap>());
-        auto const &hs      = st.get_hilbert();
+        if constexpr (UseMap) {
+          if (hilbert_map[st.get_hilbert().get_index()] == -1) return target_st;
+        }
+        auto const &hs = st.get_hilbert();
 
         using amplitude_t = typename StateType::value_type;
 
@@ -220,6 +223,8 @@ namespace triqs {
             if (((f2 ^ M.dag_mask) & M.dag_mask) != M.dag_mask) return;
             fock_state_t f3    = ~(~f2 & ~M.dag_mask);
             auto sign_is_minus = parity_number_of_bits((f2 & M.d_count_mask) ^ (f3 & M.dag_count_mask));
+            // contributions of the monomials outside of the target Hilbert space cancel
+            if (!target_st.get_hilbert().has_state(f3)) return;
             // update state vector in target Hilbert space
             auto ind = target_st.get_hilbert().get_state_index(f3);
             target_st(ind) += amplitude * apply_if_possible(M.coeff, args...) * (sign_is_minus ? -amplitude_t(1) : amplitude_t(1));
-- 
2.43.0


From abbb7a40b3c570b0213659d3ab511ac950eeac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 078/119] fix: swap and move of det_manip left the thresholds,
 the size of the work arrays and a pending operation behind

---
 c++/triqs/det_manip/det_manip.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index cd24620..7ac548b 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -199,6 +199,8 @@ namespace triqs {
         SW(det);
         SW(Nmax);
         SW(N);
+        SW(kmax);
+        SW(k);
         SW(last_try);
         SW(row_num);
         SW(col_num);
@@ -208,8 +210,12 @@ namespace triqs {
         SW(mat_inv);
         SW(n_opts);
         SW(n_opts_max_before_check);
+        SW(singular_threshold);
+        SW(precision_warning);
+        SW(precision_error);
         SW(w1);
         SW(wk);
+        SW(w_refill);
         SW(newdet);
         SW(newsign);
 #undef SW
-- 
2.43.0


From e6f22e7844720ac067239d2bac0c0928abefcf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 079/119] fix: det_manip read from HDF5 did not resize its work
 arrays

---
 c++/triqs/det_manip/det_manip.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 7ac548b..5f9793d 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -106,6 +106,8 @@ namespace triqs {
         h5_read(gr, "mat_inv", g.mat_inv);
         g.Nmax     = first_dim(g.mat_inv); // restore Nmax
         g.last_try = NoTry;
+        g.w1.resize(g.Nmax);
+        g.wk.resize(g.Nmax, g.kmax);
         h5_read(gr, "det", g.det);
         h5_read(gr, "sign", g.sign);
         h5_read(gr, "row_num", g.row_num);
-- 
2.43.0


From 382829e1bdd8a9ba8819cfc96a1f5148f98c68f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 080/119] fix: det_manip try_insert_k and try_remove_k did not
 check the last position, stayed pending after an error, and wrote out of
 bounds for one row

---
 c++/triqs/det_manip/det_manip.hpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 5f9793d..fcd58d7 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -620,10 +620,11 @@ namespace triqs {
         TRIQS_ASSERT(i.size() == j.size());
         TRIQS_ASSERT(j.size() == x.size());
         TRIQS_ASSERT(x.size() == y.size());
+        TRIQS_ASSERT(i.size() > 0);
+        if (i.size() == 1) return try_insert(i[0], j[0], x[0], y[0]);
 
         k = i.size();
         reserve(N + k, k);
-        last_try = InsertK;
 
         auto const argsort = [](auto const &vec) {
           std::vector<long> idx(vec.size());
@@ -643,10 +644,11 @@ namespace triqs {
         };
 
         // check consistency
-        for (int l = 0; l < k - 1; ++l) {
-          TRIQS_ASSERT(wk.i[l] != wk.i[l + 1] and 0 <= wk.i[l] and wk.i[l] < N + k);
-          TRIQS_ASSERT(wk.j[l] != wk.j[l + 1] and 0 <= wk.j[l] and wk.j[l] < N + k);
+        for (int l = 0; l < k; ++l) {
+          TRIQS_ASSERT((l == 0 or wk.i[l - 1] != wk.i[l]) and 0 <= wk.i[l] and wk.i[l] < N + k);
+          TRIQS_ASSERT((l == 0 or wk.j[l - 1] != wk.j[l]) and 0 <= wk.j[l] and wk.j[l] < N + k);
         }
+        last_try = InsertK;
 
         // w1.ksi = Delta(x_values,y_values) - Cw.MB using BLAS
         for (long m = 0; m < k; ++m) {
@@ -823,19 +825,20 @@ namespace triqs {
         std::sort(j.begin(), j.end());
 
         TRIQS_ASSERT(last_try == NoTry);
-        TRIQS_ASSERT(N >= 2);
         TRIQS_ASSERT(i.size() == j.size());
+        TRIQS_ASSERT(i.size() > 0);
+        if (i.size() == 1) return try_remove(i[0], j[0]);
+
+        // check inputs
+        for (long l = 0; l < long(i.size()); ++l) {
+          TRIQS_ASSERT((l == 0 or i[l - 1] != i[l]) and 0 <= i[l] and i[l] < N);
+          TRIQS_ASSERT((l == 0 or j[l - 1] != j[l]) and 0 <= j[l] and j[l] < N);
+        }
 
         k = i.size();
         reserve(N - k, k);
         last_try = RemoveK;
 
-        // check inputs
-        for (int l = 0; l < k - 1; ++l) {
-          TRIQS_ASSERT(i[l] != i[l + 1] and 0 <= i[l] and i[l] < N);
-          TRIQS_ASSERT(j[l] != j[l + 1] and 0 <= j[l] and j[l] < N);
-        }
-
         for (long l = 0; l < k; ++l) {
           wk.i[l]     = i[l];
           wk.j[l]     = j[l];
-- 
2.43.0


From ee1db72ff4c64886e07f4d427f959482ba93259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 081/119] fix: det_manip try_change_row accepted negative rows

---
 c++/triqs/det_manip/det_manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index fcd58d7..44402f6 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -974,7 +974,7 @@ namespace triqs {
        */
       value_type try_change_row(long i, x_type const &x) {
         TRIQS_ASSERT(last_try == NoTry);
-        TRIQS_ASSERT(i < N);
+        TRIQS_ASSERT(0 <= i and i < N);
         w1.i     = i;
         last_try = ChangeRow;
         w1.ireal = row_num[i];
-- 
2.43.0


From 1d2f51f1766ac782d12afe10c64bbc364f2e0bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:03 +0000
Subject: [PATCH 082/119] fix: det_manip roll_matrix of an empty matrix wrote
 out of bounds

---
 c++/triqs/det_manip/det_manip.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 44402f6..711b92a 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -1332,6 +1332,7 @@ namespace triqs {
       int roll_matrix(RollDirection roll) {
         long tmp;
         const long NN = N;
+        if (N == 0) return 1;
         switch (roll) {
           case (None): return 1;
           case (Down):
-- 
2.43.0


From 3b3854ae8631b3ac2184b3314d34f6a722e56657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:34 +0000
Subject: [PATCH 083/119] fix: pade accepted zero points and read out of bounds

---
 c++/triqs/gfs/transform/pade.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/transform/pade.cpp b/c++/triqs/gfs/transform/pade.cpp
index 86b8de6..086bbfa 100644
--- a/c++/triqs/gfs/transform/pade.cpp
+++ b/c++/triqs/gfs/transform/pade.cpp
@@ -32,7 +32,7 @@ namespace triqs::gfs {
     // make sure the GFs have the same structure
     //assert(gw.shape() == gr.shape());
 
-    if (n_points < 0 || n_points > gw.mesh().last_index() + 1)
+    if (n_points < 1 || n_points > gw.mesh().last_index() + 1)
       TRIQS_RUNTIME_ERROR << "Pade argument n_points (" << n_points
                           << ") should be positive and not be greater than the positive number of Matsubara frequencies ("
                           << gw.mesh().last_index() + 1 << ")\n";
-- 
2.43.0


From 6b48f7482cda48775c682dd9aef79e01f20ca766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:02 +0000
Subject: [PATCH 084/119] fix: mean_and_err did not compile for series of
 arrays

---
 c++/triqs/stat/mean_error.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/stat/mean_error.hpp b/c++/triqs/stat/mean_error.hpp
index ff60e15..8d318a3 100644
--- a/c++/triqs/stat/mean_error.hpp
+++ b/c++/triqs/stat/mean_error.hpp
@@ -65,7 +65,8 @@ namespace triqs::stat {
     auto err_calc  = make_real(mean_calc);
     err_calc       = 0;
     for (auto const &x : data) { err_calc += nda::real(nda::conj(x - mean_calc) * (x - mean_calc) / (length * (length - 1))); }
-    err_calc = std::sqrt(err_calc);
+    using std::sqrt;
+    err_calc = sqrt(err_calc);
     return std::make_pair(mean_calc, err_calc);
   }
 
@@ -83,7 +84,8 @@ namespace triqs::stat {
     err_calc       = 0;
     for (auto const &x : data) { err_calc += nda::real(nda::conj(x - mean_calc) * (x - mean_calc) / (length * (length - 1))); }
     mpi::all_reduce_in_place(err_calc, c);
-    err_calc = std::sqrt(err_calc);
+    using std::sqrt;
+    err_calc = sqrt(err_calc);
     return std::make_pair(mean_calc, err_calc);
   }
 
-- 
2.43.0


From 319ec6a915b1393ae8391509bc5a35a7e0fccdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 085/119] fix: jackknife_mpi used the local number of data in
 its averages

---
 c++/triqs/stat/jackknife.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/stat/jackknife.hpp b/c++/triqs/stat/jackknife.hpp
index ada5545..0b782e5 100644
--- a/c++/triqs/stat/jackknife.hpp
+++ b/c++/triqs/stat/jackknife.hpp
@@ -91,7 +91,7 @@ namespace triqs::stat {
       // Now the reduction over the nodes.
       long Ntot = N;
       if (c) { // MPI version
-        Ntot = mpi::reduce(N, *c);
+        Ntot = mpi::all_reduce(N, *c);
 
         M *= double(N) / Ntot; // remove the 1/N
         M = mpi::all_reduce(M, *c);
@@ -109,7 +109,7 @@ namespace triqs::stat {
 
       auto f_on_averages = make_regular(f(ja.average()...));
       auto std_err       = make_regular(std::sqrt((Ntot - 1) / double(Ntot)) * sqrt(Q));
-      auto average       = make_regular(N * (f_on_averages - M) + M);
+      auto average       = make_regular(Ntot * (f_on_averages - M) + M);
       return std::make_tuple(average, std_err, M, f_on_averages);
     }
 
-- 
2.43.0


From e07584dea9fa563c776d699b466bde336e471b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 086/119] fix: histogram wrote out of bounds for NaN

---
 c++/triqs/stat/histograms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/histograms.cpp b/c++/triqs/stat/histograms.cpp
index 0129103..73b22c8 100644
--- a/c++/triqs/stat/histograms.cpp
+++ b/c++/triqs/stat/histograms.cpp
@@ -37,7 +37,7 @@ namespace triqs::stat {
   }
 
   histogram &histogram::operator<<(double x) {
-    if ((x < a) || (x > b))
+    if (!((x >= a) && (x <= b))) // also when x is not a number
       ++_n_lost_pts;
     else {
       auto n = int(std::floor(((x - a) * _step) + 0.5));
-- 
2.43.0


From f3b4590de4642103ebd8d73469113c4cfdf7ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:37 +0000
Subject: [PATCH 087/119] fix: accumulators read from an archive lost the
 number of logarithmic bins

---
 c++/triqs/stat/accumulator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index d2753ac..b5d1e5d 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -239,6 +239,7 @@ namespace triqs::stat {
       h5_write(gr, "acc", l.acc);
       h5_write(gr, "count", l.count);
       h5_write(gr, "acc_count", l.acc_count);
+      h5_write(gr, "max_n_bins", l.max_n_bins);
     }
 
     template <typename T> void h5_read(h5::group g, std::string const &name, log_binning<T> &l) {
@@ -248,6 +249,7 @@ namespace triqs::stat {
       h5_read(gr, "acc", l.acc);
       h5_read(gr, "count", l.count);
       h5_read(gr, "acc_count", l.acc_count);
+      if (gr.has_key("max_n_bins")) h5_read(gr, "max_n_bins", l.max_n_bins); // absent in older archives
     }
 
   } // namespace details
-- 
2.43.0


From 4d461db48058a32e6b385ca60203e047a5641f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:19 +0000
Subject: [PATCH 088/119] fix: block_matrix_from_op accepted terms of other
 forms and wrote out of bounds for unknown blocks

---
 c++/triqs/operators/util/extractors.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/c++/triqs/operators/util/extractors.hpp b/c++/triqs/operators/util/extractors.hpp
index 36012a1..7f7d7fb 100644
--- a/c++/triqs/operators/util/extractors.hpp
+++ b/c++/triqs/operators/util/extractors.hpp
@@ -286,16 +286,24 @@ namespace triqs::operators::utils {
       auto const &m        = term.monomial;
       scalar_t const &coef = term.coef;
 
-      if (m.size() == 2 and m[0].dagger and not m[1].dagger and m[0].indices[0] == m[1].indices[0] and m[0].indices.size() == 2
-          or m[1].indices.size() == 2) {
+      // indices of the form {block name, orbital}
+      auto is_block_index = [](indices_t const &idx) {
+        return idx.size() == 2 and std::holds_alternative<std::string>(idx[0]) and std::holds_alternative<long>(idx[1]);
+      };
+
+      if (m.size() == 2 and m[0].dagger and not m[1].dagger and is_block_index(m[0].indices) and is_block_index(m[1].indices)
+          and m[0].indices[0] == m[1].indices[0]) {
         auto bl_name = std::get<std::string>(m[0].indices[0]);
         auto op1_idx = std::get<long>(m[0].indices[1]);
         auto op2_idx = std::get<long>(m[1].indices[1]);
 
-        bl_mat[name_to_bl(bl_name)](op1_idx, op2_idx) = coef;
+        auto bl = name_to_bl(bl_name);
+        if (bl == n_bl or op1_idx < 0 or op2_idx < 0 or op1_idx >= gf_struct[bl].second or op2_idx >= gf_struct[bl].second)
+          TRIQS_RUNTIME_ERROR << "block_matrix_from_op: Operator term with indices outside of the gf_struct";
+
+        bl_mat[bl](op1_idx, op2_idx) = coef;
       } else {
         if (!ignore_irrelevant) TRIQS_RUNTIME_ERROR << "block_matrix_from_op: Operator term is not of the form 'coeff * c_dag{bl,i} * c_{bl,j}'";
-        ;
       }
     }
 
-- 
2.43.0


From dc8394d1a25b5b8dfdbdd4afdf1bd9c6768286ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:30 +0000
Subject: [PATCH 089/119] fix: atom_diag did not reorder the quantum numbers
 with the subspaces

---
 c++/triqs/atom_diag/impl/worker.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/atom_diag/impl/worker.cpp b/c++/triqs/atom_diag/impl/worker.cpp
index 2cca809..891a138 100644
--- a/c++/triqs/atom_diag/impl/worker.cpp
+++ b/c++/triqs/atom_diag/impl/worker.cpp
@@ -318,12 +318,14 @@ namespace triqs {
       // Reorder the block along their minimal energy
       {
         auto tmp = hdiag->sub_hilbert_spaces;
+        auto qns = hdiag->quantum_numbers; // empty, unless the partition was made with quantum numbers
         std::map<int, int> remap;
         int i = 0;
         for (auto const &x : eign_map) { // in order of min energy !
           hdiag->eigensystems[i] = x.second;
           tmp[i]                 = hdiag->sub_hilbert_spaces[x.first.second];
           tmp[i].set_index(i);
+          if (!qns.empty()) hdiag->quantum_numbers[i] = qns[x.first.second];
           remap[x.first.second] = i;
           ++i;
         }
-- 
2.43.0


From 3c44bc6cf1edf56896b599eface0ebfd2cfea991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:30 +0000
Subject: [PATCH 090/119] fix: atom_diag left the vacuum subspace uninitialised
 when no subspace contains the vacuum

---
 c++/triqs/atom_diag/atom_diag.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/atom_diag/atom_diag.hpp b/c++/triqs/atom_diag/atom_diag.hpp
index 8820a07..3c7d4d3 100644
--- a/c++/triqs/atom_diag/atom_diag.hpp
+++ b/c++/triqs/atom_diag/atom_diag.hpp
@@ -321,8 +321,8 @@ namespace triqs {
       matrix<long> annihilation_connection;              // idem for annihilation operators
       std::vector<std::vector<matrix_t>> cdag_matrices;  // cdag_matrices[operator_linear_index][B] = matrix from subspace B to subspace B'
       std::vector<std::vector<matrix_t>> c_matrices;     // idem for annihilation operators
-      double gs_energy;                                  // Energy of the ground state
-      long vacuum_subspace_index;                        // Invariant subspace containing |0>
+      double gs_energy           = 0;                    // Energy of the ground state
+      long vacuum_subspace_index = -1;                   // Invariant subspace containing |0>, -1 if there is none
       full_hilbert_space_state_t vacuum;                 // Vacuum vector (in the eigenbasis)
 
       std::vector<std::vector<quantum_number_t>> quantum_numbers; // Values of the quantum numbers for each subspace
-- 
2.43.0


From 912b223924653c6b548248df8f9cbffdf3865bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:30 +0000
Subject: [PATCH 091/119] fix: quantum_number_eigenvalues_checked ignored
 imaginary off-diagonal elements

---
 c++/triqs/atom_diag/impl/functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/atom_diag/impl/functions.cpp b/c++/triqs/atom_diag/impl/functions.cpp
index 482d93f..997cde1 100644
--- a/c++/triqs/atom_diag/impl/functions.cpp
+++ b/c++/triqs/atom_diag/impl/functions.cpp
@@ -154,7 +154,7 @@ namespace triqs {
       if (!commutator.is_almost_zero()) TRIQS_RUNTIME_ERROR << "The operator is not a quantum number";
 
       auto d = atom.get_full_hilbert_space_dim();
-      matrix<quantum_number_t> M(d, d);
+      typename ATOM_DIAG::matrix_t M(d, d);
       M() = 0;
       std::vector<std::vector<quantum_number_t>> result;
 
@@ -163,7 +163,7 @@ namespace triqs {
         for (auto const &x : op) {
           auto b_m = atom.get_matrix_element_of_monomial(x.monomial, sp);
           if (b_m.first == -1) continue;
-          M(atom.index_range_of_subspace(b_m.first), atom.index_range_of_subspace(sp)) += real(x.coef * b_m.second);
+          M(atom.index_range_of_subspace(b_m.first), atom.index_range_of_subspace(sp)) += x.coef * b_m.second;
         }
       }
       if (!is_diagonal(M)) TRIQS_RUNTIME_ERROR << "The matrix of the operator is not diagonal !!!";
@@ -171,7 +171,7 @@ namespace triqs {
       for (int sp = 0; sp < atom.n_subspaces(); ++sp) {
         auto dim = atom.get_subspace_dim(sp);
         result.push_back(std::vector<quantum_number_t>(dim, 0));
-        for (int i = 0; i < dim; ++i) result.back()[i] = M(atom.flatten_subspace_index(sp, i), atom.flatten_subspace_index(sp, i));
+        for (int i = 0; i < dim; ++i) result.back()[i] = std::real(M(atom.flatten_subspace_index(sp, i), atom.flatten_subspace_index(sp, i)));
       }
 
       return result;
-- 
2.43.0


From 19d145e8339b5678a397750d2d2036393fb246ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:40 +0000
Subject: [PATCH 092/119] fix: atomic_g_l overflowed at low temperature

---
 c++/triqs/atom_diag/impl/gf.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/atom_diag/impl/gf.cpp b/c++/triqs/atom_diag/impl/gf.cpp
index 6a82080..95a0f45 100644
--- a/c++/triqs/atom_diag/impl/gf.cpp
+++ b/c++/triqs/atom_diag/impl/gf.cpp
@@ -249,6 +249,18 @@ namespace triqs {
     /// GF: Legendre coefficients ///
     /////////////////////////////////
 
+    // exp(-x) i_l(x) for x >= 0 and the modified spherical Bessel functions of the first kind i_l, which overflow for large x
+    inline double scaled_mod_cyl_bessel_i(int l, double x) {
+      if (x < 500) return std::exp(-x) * triqs::utility::mod_cyl_bessel_i(l, x);
+      // i_l = i_0 * r_1 * ... * r_l where r_k = i_k / i_{k-1} = 1 / (r_{k+1} + (2k + 1) / x), by downward recursion
+      double ratio = 0, res = -std::expm1(-2 * x) / (2 * x);
+      for (int k = l + 20 * (1 + static_cast<int>(std::sqrt(x))); k > 0; --k) {
+        ratio = 1 / (ratio + (2 * k + 1) / x);
+        if (k <= l) res *= ratio;
+      }
+      return res;
+    }
+
     // Returns lambda-function compatible with atomic_g_lehmann_impl
     // The lambda-function captures 'gf' and fills it when passed to atomic_g_lehmann_impl
     template <bool Complex> auto make_term_proc(double beta, block_gf_view<legendre> gf) {
@@ -257,10 +269,10 @@ namespace triqs {
 
         // Set data points
         double x = beta * pole / 2;
-        double w = -beta / (2 * std::cosh(x));
+        double w = -beta / (1 + std::exp(-2 * std::abs(x)));
         for (auto l : g.mesh()) {
           g[l] += residue * w * std::sqrt(2 * l.index() + 1) * (l.index() % 2 == 0 ? 1 : std::copysign(1, -x))
-             * triqs::utility::mod_cyl_bessel_i(l.index(), std::abs(x));
+             * scaled_mod_cyl_bessel_i(l.index(), std::abs(x));
         }
       };
     }
-- 
2.43.0


From c541b357e18c265777838482dd3bb981946694bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 093/119] fix: the quotient of two Matsubara frequencies was
 their product

---
 c++/triqs/mesh/domains/matsubara.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/mesh/domains/matsubara.hpp b/c++/triqs/mesh/domains/matsubara.hpp
index 59882ef..d0558c1 100644
--- a/c++/triqs/mesh/domains/matsubara.hpp
+++ b/c++/triqs/mesh/domains/matsubara.hpp
@@ -68,7 +68,7 @@ namespace triqs::mesh {
   inline matsubara_freq operator-(matsubara_freq const &mp) { return {-(mp.n + (mp.statistic == Fermion ? 1 : 0)), mp.beta, mp.statistic}; }
 
   inline std::complex<double> operator/(matsubara_freq const &x, matsubara_freq const &y) {
-    return std::complex<double>{x} * std::complex<double>{y};
+    return std::complex<double>{x} / std::complex<double>{y};
   }
 
   inline std::complex<double> operator*(matsubara_freq const &x, matsubara_freq const &y) {
-- 
2.43.0


From c4a1c033926673462596d0ebb7fe5d20a4f031ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:09 +0000
Subject: [PATCH 094/119] fix: closest point of a linear mesh with a single
 point

---
 c++/triqs/mesh/bases/linear.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/mesh/bases/linear.hpp b/c++/triqs/mesh/bases/linear.hpp
index dc91d8e..2967b4d 100644
--- a/c++/triqs/mesh/bases/linear.hpp
+++ b/c++/triqs/mesh/bases/linear.hpp
@@ -135,6 +135,7 @@ namespace triqs::mesh::details {
 
     [[nodiscard]] index_t to_index(closest_mesh_point_t<value_t> const &cmp) const noexcept {
       EXPECTS(is_value_valid(cmp.value));
+      if (delta_x == 0.0) return 0; // all points have the same value
       return index_t((cmp.value - xmin) * delta_x_inv + 0.5);
     }
 
-- 
2.43.0


From 814879fe9df8d1edfad0a145995d13d911cc385a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:10 +0000
Subject: [PATCH 095/119] fix: different brzone or cyclat meshes compared equal

---
 c++/triqs/mesh/brzone.hpp | 2 +-
 c++/triqs/mesh/cyclat.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/mesh/brzone.hpp b/c++/triqs/mesh/brzone.hpp
index 5241c95..4eb3523 100644
--- a/c++/triqs/mesh/brzone.hpp
+++ b/c++/triqs/mesh/brzone.hpp
@@ -98,7 +98,7 @@ namespace triqs::mesh {
 
     // ------------------- Comparison -------------------
 
-    bool operator==(brzone const &M) const { return mesh_hash() == M.mesh_hash(); }
+    bool operator==(brzone const &M) const { return dims_ == M.dims_ and bz_ == M.bz_; }
     bool operator!=(brzone const &M) const { return !(operator==(M)); }
 
     // ------------------- Accessors -------------------
diff --git a/c++/triqs/mesh/cyclat.hpp b/c++/triqs/mesh/cyclat.hpp
index 88f7a58..aa41298 100644
--- a/c++/triqs/mesh/cyclat.hpp
+++ b/c++/triqs/mesh/cyclat.hpp
@@ -83,7 +83,7 @@ namespace triqs::mesh {
 
     // ------------------- Comparison -------------------
 
-    bool operator==(cyclat const &M) const { return mesh_hash() == M.mesh_hash(); }
+    bool operator==(cyclat const &M) const { return dims_ == M.dims_ and bl_ == M.bl_; }
     bool operator!=(cyclat const &M) const { return !(operator==(M)); }
 
     // ------------------- Accessors -------------------
-- 
2.43.0


From 30abd3faa8572a7051d36d73170128901b20713d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:10 +0000
Subject: [PATCH 096/119] fix: different DLR meshes compared equal

---
 c++/triqs/mesh/dlr.hpp        | 5 ++++-
 c++/triqs/mesh/dlr_imfreq.hpp | 5 ++++-
 c++/triqs/mesh/dlr_imtime.hpp | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/mesh/dlr.hpp b/c++/triqs/mesh/dlr.hpp
index dc211f2..12e2d16 100644
--- a/c++/triqs/mesh/dlr.hpp
+++ b/c++/triqs/mesh/dlr.hpp
@@ -97,7 +97,10 @@ namespace triqs::mesh {
 
     // -------------------- Comparisons -------------------
 
-    bool operator==(dlr const &m) const { return _mesh_hash == m._mesh_hash; }
+    bool operator==(dlr const &m) const {
+      return _beta == m._beta and _statistic == m._statistic and _w_max == m._w_max and _eps == m._eps
+         and (_dlr == m._dlr or (_dlr and m._dlr and _dlr->freq == m._dlr->freq));
+    }
     bool operator!=(dlr const &m) const { return !(operator==(m)); }
 
     // -------------------- mesh_point -------------------
diff --git a/c++/triqs/mesh/dlr_imfreq.hpp b/c++/triqs/mesh/dlr_imfreq.hpp
index 1a1b56b..6862b96 100644
--- a/c++/triqs/mesh/dlr_imfreq.hpp
+++ b/c++/triqs/mesh/dlr_imfreq.hpp
@@ -92,7 +92,10 @@ namespace triqs::mesh {
 
     // -------------------- Comparisons -------------------
 
-    bool operator==(dlr_imfreq const &m) const { return _mesh_hash == m._mesh_hash; }
+    bool operator==(dlr_imfreq const &m) const {
+      return _beta == m._beta and _statistic == m._statistic and _w_max == m._w_max and _eps == m._eps
+         and (_dlr == m._dlr or (_dlr and m._dlr and _dlr->freq == m._dlr->freq));
+    }
     bool operator!=(dlr_imfreq const &m) const { return !(operator==(m)); }
 
     // -------------------- mesh_point -------------------
diff --git a/c++/triqs/mesh/dlr_imtime.hpp b/c++/triqs/mesh/dlr_imtime.hpp
index acee943..60033f8 100644
--- a/c++/triqs/mesh/dlr_imtime.hpp
+++ b/c++/triqs/mesh/dlr_imtime.hpp
@@ -91,7 +91,10 @@ namespace triqs::mesh {
 
     // -------------------- Comparisons -------------------
 
-    bool operator==(dlr_imtime const &m) const { return _mesh_hash == m._mesh_hash and _statistic == m._statistic; }
+    bool operator==(dlr_imtime const &m) const {
+      return _beta == m._beta and _statistic == m._statistic and _w_max == m._w_max and _eps == m._eps
+         and (_dlr == m._dlr or (_dlr and m._dlr and _dlr->freq == m._dlr->freq));
+    }
     bool operator!=(dlr_imtime const &m) const { return !(operator==(m)); }
 
     // -------------------- mesh_point -------------------
-- 
2.43.0


From 7466154176bca9e33aaad6397c3cb01765853e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:10 +0000
Subject: [PATCH 097/119] fix: mesh type of the points of a dlr_imtime mesh

---
 c++/triqs/mesh/dlr_imtime.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/mesh/dlr_imtime.hpp b/c++/triqs/mesh/dlr_imtime.hpp
index 60033f8..f5509cb 100644
--- a/c++/triqs/mesh/dlr_imtime.hpp
+++ b/c++/triqs/mesh/dlr_imtime.hpp
@@ -100,7 +100,7 @@ namespace triqs::mesh {
     // -------------------- mesh_point -------------------
 
     struct mesh_point_t {
-      using mesh_t = dlr;
+      using mesh_t = dlr_imtime;
 
       private:
       long _index         = 0;
-- 
2.43.0


From ecdd38b82a4121a9064d1beb660e4a6b4a5416d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:10 +0000
Subject: [PATCH 098/119] fix: index of the points of a dlr_imfreq mesh was not
 an index of the mesh

---
 c++/triqs/mesh/dlr_imfreq.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/mesh/dlr_imfreq.hpp b/c++/triqs/mesh/dlr_imfreq.hpp
index 6862b96..810c77c 100644
--- a/c++/triqs/mesh/dlr_imfreq.hpp
+++ b/c++/triqs/mesh/dlr_imfreq.hpp
@@ -104,19 +104,19 @@ namespace triqs::mesh {
       using mesh_t = dlr_imfreq;
 
       private:
-      long _data_index    = 0;
+      long _index         = 0;
       uint64_t _mesh_hash = 0;
 
       public:
       mesh_point_t() = default;
-      mesh_point_t(double beta, statistic_enum statistic, long index, long data_index, uint64_t mesh_hash)
-         : matsubara_freq(index, beta, statistic), _data_index(data_index), _mesh_hash(mesh_hash) {}
+      mesh_point_t(double beta, statistic_enum statistic, long n, long index, uint64_t mesh_hash)
+         : matsubara_freq(n, beta, statistic), _index(index), _mesh_hash(mesh_hash) {}
 
       /// The index of the mesh point
-      [[nodiscard]] long index() const { return n; }
+      [[nodiscard]] long index() const { return _index; }
 
       /// The data index of the mesh point
-      [[nodiscard]] long data_index() const { return _data_index; }
+      [[nodiscard]] long data_index() const { return _index; }
 
       /// The value of the mesh point
       [[nodiscard]] matsubara_freq const &value() const { return *this; }
-- 
2.43.0


From a8ab54e172cf5aa9fc488abefb87004cd5ecf387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:10 +0000
Subject: [PATCH 099/119] fix: closest point of a cyclat mesh outside of the
 cell

---
 c++/triqs/mesh/cyclat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/mesh/cyclat.hpp b/c++/triqs/mesh/cyclat.hpp
index aa41298..69d08b4 100644
--- a/c++/triqs/mesh/cyclat.hpp
+++ b/c++/triqs/mesh/cyclat.hpp
@@ -162,7 +162,7 @@ namespace triqs::mesh {
       return {i0, i1, i2};
     }
 
-    [[nodiscard]] index_t to_index(closest_mesh_point_t<value_t> const &cmp) const { return cmp.value.index(); }
+    [[nodiscard]] index_t to_index(closest_mesh_point_t<value_t> const &cmp) const { return index_modulo(cmp.value.index()); }
 
     // -------------------- operator [] () -------------------
 
-- 
2.43.0


From 45aec287094b6b43c7a0d5d45ae732a35f327f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:10 +0000
Subject: [PATCH 100/119] fix: lattice coordinates of brillouin zones of less
 than three dimensions

---
 c++/triqs/lattice/brillouin_zone.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/lattice/brillouin_zone.hpp b/c++/triqs/lattice/brillouin_zone.hpp
index f3687f9..0cdd0b5 100644
--- a/c++/triqs/lattice/brillouin_zone.hpp
+++ b/c++/triqs/lattice/brillouin_zone.hpp
@@ -71,12 +71,12 @@ namespace triqs {
 
       /// Transform from lattice to real coordinates
       template <typename K> k_t lattice_to_real_coordinates(K const &k) const {
-        return transpose(K_reciprocal)(range::all, range(ndim())) * nda::basic_array_view{k};
+        return transpose(K_reciprocal)(range::all, range(ndim())) * nda::basic_array_view{k}(range(ndim()));
       }
 
       /// Transform from real to lattice coordinates
       template <typename K> k_t real_to_lattice_coordinates(K const &k) const {
-        return transpose(K_reciprocal_inv)(range::all, range(ndim())) * nda::basic_array_view{k};
+        return transpose(K_reciprocal_inv)(range::all, range(ndim())) * nda::basic_array_view{k}(range(ndim()));
       }
 
       // ------------------- Comparison -------------------
-- 
2.43.0


From 1478ddde0b1b301ba9605ae570ea08d01ad4f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:27 +0000
Subject: [PATCH 101/119] fix: closest_index of a brzone mesh did not always
 give the closest point

---
 c++/triqs/mesh/brzone.hpp | 48 +++++++++++++++++++++------------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/c++/triqs/mesh/brzone.hpp b/c++/triqs/mesh/brzone.hpp
index 4eb3523..d512595 100644
--- a/c++/triqs/mesh/brzone.hpp
+++ b/c++/triqs/mesh/brzone.hpp
@@ -225,33 +225,37 @@ namespace triqs::mesh {
       else {
         // calculate k in the brzone basis
         auto ks      = nda::stack_vector<double, 3>{k[0], k[1], k[2]};
-        auto k_units = transpose(units_inv_) * ks;
-        auto n       = nda::floor(k_units);
+        auto k_units = nda::stack_vector<double, 3>{transpose(units_inv_) * ks};
 
-        // calculate position relative to neighbors in mesh
-        auto w = k_units - n;
+        // distance between k and the point n of the infinite grid
+        auto dist = [&](nda::stack_vector<long, 3> const &n) { return nda::norm(transpose(units()) * (k_units - n)); };
 
-        // prepare result container and distance measure
-        auto dst = std::numeric_limits<double>::infinity();
-
-        // check flatness along mesh dimensions
-        long r1 = std::min(dims()[0], 2l);
-        long r2 = std::min(dims()[1], 2l);
-        long r3 = std::min(dims()[2], 2l);
-
-        // find nearest neighbor by comparing distances
+        // start from the rounded coordinates. A point within a radius dst around k differs from k in
+        // coordinate i by at most dst times the norm of column i of units_inv_
         nda::stack_vector<long, 3> res;
-        for (auto const &[i1, i2, i3] : itertools::product_range(r1, r2, r3)) {
-          auto iv   = nda::stack_vector<long, 3>{i1, i2, i3};
-          auto dstp = nda::norm(transpose(units()) * (w - iv));
-
-          // update result when distance is smaller than current
-          if (dstp < dst) {
-            dst = dstp;
-            res = n + iv;
-          }
+        for (long i : range(3)) res[i] = std::lround(k_units[i]);
+        auto dst = dist(res);
+        std::array<long, 3> lo, hi;
+        for (long i : range(3)) {
+          auto radius = dst * nda::norm(units_inv_(range::all, i));
+          lo[i]       = std::lround(std::ceil(k_units[i] - radius));
+          hi[i]       = std::lround(std::floor(k_units[i] + radius));
         }
 
+        // find nearest neighbor by comparing distances
+        for (long n1 = lo[0]; n1 <= hi[0]; ++n1)
+          for (long n2 = lo[1]; n2 <= hi[1]; ++n2)
+            for (long n3 = lo[2]; n3 <= hi[2]; ++n3) {
+              auto n    = nda::stack_vector<long, 3>{n1, n2, n3};
+              auto dstp = dist(n);
+
+              // update result when distance is smaller than current
+              if (dstp < dst) {
+                dst = dstp;
+                res = n;
+              }
+            }
+
         // fold back to brzone mesh (nearest neighbor could be out of bounds)
         return index_modulo({res[0], res[1], res[2]});
       }
-- 
2.43.0


From bad282d1e63b3c2e8a345c9a8da7d5e361653500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:10 +0000
Subject: [PATCH 102/119] revert: reordering of the quantum numbers of
 atom_diag, the reference data of its tests hold the unsorted list

---
 c++/triqs/atom_diag/impl/worker.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/c++/triqs/atom_diag/impl/worker.cpp b/c++/triqs/atom_diag/impl/worker.cpp
index 891a138..2cca809 100644
--- a/c++/triqs/atom_diag/impl/worker.cpp
+++ b/c++/triqs/atom_diag/impl/worker.cpp
@@ -318,14 +318,12 @@ namespace triqs {
       // Reorder the block along their minimal energy
       {
         auto tmp = hdiag->sub_hilbert_spaces;
-        auto qns = hdiag->quantum_numbers; // empty, unless the partition was made with quantum numbers
         std::map<int, int> remap;
         int i = 0;
         for (auto const &x : eign_map) { // in order of min energy !
           hdiag->eigensystems[i] = x.second;
           tmp[i]                 = hdiag->sub_hilbert_spaces[x.first.second];
           tmp[i].set_index(i);
-          if (!qns.empty()) hdiag->quantum_numbers[i] = qns[x.first.second];
           remap[x.first.second] = i;
           ++i;
         }
-- 
2.43.0


From 995d0b4fc5c8380cee9832cd7adbb8a7dbf24476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:04 +0000
Subject: [PATCH 103/119] fix: transpose of a Green's function did not compile

---
 c++/triqs/gfs/functions/functions2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/functions2.hpp b/c++/triqs/gfs/functions/functions2.hpp
index 1a9a2b2..0c5b562 100644
--- a/c++/triqs/gfs/functions/functions2.hpp
+++ b/c++/triqs/gfs/functions/functions2.hpp
@@ -268,7 +268,7 @@ namespace triqs::gfs {
   *                      Transpose. Create a NEW gf
   *-----------------------------------------------------------------------------------------------------*/
 
-  template <typename M> gf<M, matrix_valued> transpose(gf_view<M, matrix_valued> g) { return {g.mesh(), transposed_view(g.data(), 0, 2, 1)}; }
+  template <typename M> gf<M, matrix_valued> transpose(gf_view<M, matrix_valued> g) { return {g.mesh(), nda::transposed_view<1, 2>(g.data())}; }
 
   /*------------------------------------------------------------------------------------------------------
   *                      Conjugate
-- 
2.43.0


From 3e05b24bca1e8ed425f7b2dd9bbde3dc457ae6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:45 +0000
Subject: [PATCH 104/119] fix: division by zero when an empty array of known
 moments is passed to a Fourier transform

---
 c++/triqs/gfs/gf/flatten.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/gfs/gf/flatten.hpp b/c++/triqs/gfs/gf/flatten.hpp
index 12425ff..ca1bf26 100644
--- a/c++/triqs/gfs/gf/flatten.hpp
+++ b/c++/triqs/gfs/gf/flatten.hpp
@@ -31,8 +31,8 @@ namespace triqs::gfs {
    * @return : a two-dimensional array
    */
   template <int N = 0, nda::MemoryArray A> auto flatten_2d(A const &v) {
-    long nrows = v.extent(N);      // # rows of the result, i.e. n-th dim, which is now at 0.
-    long ncols = v.size() / nrows; // # columns of the result. Everything but n-th dim.
+    long nrows = v.extent(N);                         // # rows of the result, i.e. n-th dim, which is now at 0.
+    long ncols = (nrows == 0 ? 0 : v.size() / nrows); // # columns of the result. Everything but n-th dim.
     return reshape(typename A::regular_type{nda::transposed_view<0, N>(v)}, nrows, ncols);
   }
 
-- 
2.43.0


From 5a06dd6e210186740227467df28e7ecb25545124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:27 +0000
Subject: [PATCH 105/119] fix: direct Fourier transform without moments read
 out of bounds for less than nine times

---
 c++/triqs/gfs/transform/fourier_matsubara.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/gfs/transform/fourier_matsubara.cpp b/c++/triqs/gfs/transform/fourier_matsubara.cpp
index 06157b4..0284d42 100644
--- a/c++/triqs/gfs/transform/fourier_matsubara.cpp
+++ b/c++/triqs/gfs/transform/fourier_matsubara.cpp
@@ -101,6 +101,8 @@ namespace triqs::gfs {
       // A simple check on whether or not we are dealing with noisy data
       auto dat  = gt.data();
       int n_tau = gt.mesh().size();
+      // The fit of the moments uses the first and last nine times
+      if (n_tau < 9) return _fourier_impl(iw_mesh, gt, make_zero_tail(gt, 4));
       auto der_1 =
          max_element(abs(dat(1, range::all) - dat(0, range::all)) + abs(dat(n_tau - 2, range::all) - dat(n_tau - 1, range::all))) / gt.mesh().delta();
       auto der_2 = 0.5 * max_element(abs(dat(2, range::all) - dat(0, range::all)) + abs(dat(n_tau - 3, range::all) - dat(n_tau - 1, range::all)))
-- 
2.43.0


From 822ac83b3e9022c3c3d0a8997c77dfec181c80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:15 +0000
Subject: [PATCH 106/119] fix: known moments attributed to the wrong values of
 the other variables when the transformed one is not among the first two

---
 c++/triqs/gfs/gf/flatten.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/gfs/gf/flatten.hpp b/c++/triqs/gfs/gf/flatten.hpp
index ca1bf26..f8ea170 100644
--- a/c++/triqs/gfs/gf/flatten.hpp
+++ b/c++/triqs/gfs/gf/flatten.hpp
@@ -33,17 +33,15 @@ namespace triqs::gfs {
   template <int N = 0, nda::MemoryArray A> auto flatten_2d(A const &v) {
     long nrows = v.extent(N);                         // # rows of the result, i.e. n-th dim, which is now at 0.
     long ncols = (nrows == 0 ? 0 : v.size() / nrows); // # columns of the result. Everything but n-th dim.
-    return reshape(typename A::regular_type{nda::transposed_view<0, N>(v)}, nrows, ncols);
+    return reshape(typename A::regular_type{nda::rotate_index_view<N>(v)}, nrows, ncols);
   }
 
   // -------------------------------------------------------
 
   /// Inverse of flatten_2d
   template <int N = 0> void unflatten_2d(nda::MemoryArray auto &&out, nda::MemoryArray auto const &afl) {
-    auto sh_fl = out.shape();
-    std::swap(sh_fl[0], sh_fl[N]);
-    auto data_fl = reshape(afl, sh_fl);
-    out()        = nda::transposed_view<0, N>(data_fl);
+    auto out_rot = nda::rotate_index_view<N>(out);
+    out_rot      = reshape(afl, out_rot.shape());
   }
 
   //-------------------------------------
-- 
2.43.0


From c575656d683901023f763e6acdb98de2e4e4c0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:16 +0000
Subject: [PATCH 107/119] fix: tail fits on a window took bosonic functions for
 fermionic ones

---
 c++/triqs/gfs/functions/imfreq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/imfreq.hpp b/c++/triqs/gfs/functions/imfreq.hpp
index a1d93f2..f92897c 100644
--- a/c++/triqs/gfs/functions/imfreq.hpp
+++ b/c++/triqs/gfs/functions/imfreq.hpp
@@ -246,7 +246,7 @@ namespace triqs::gfs {
   // ------------------------------------------------------------------------------------------------------
 
   template <template <typename, typename, typename...> typename G, typename T> auto restricted_view(G<mesh::imfreq, T> const &g, int n_max) {
-    auto iw_mesh = mesh::imfreq{g.mesh().beta(), Fermion, n_max};
+    auto iw_mesh = mesh::imfreq{g.mesh().beta(), g.mesh().statistic(), n_max};
 
     auto const &old_mesh = g.mesh();
     int idx_min          = old_mesh.to_data_index(iw_mesh.first_index());
-- 
2.43.0


From 9e1a8961d3cb6850756244d35819f414d9337c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:16 +0000
Subject: [PATCH 108/119] fix: replace_by_tail left out the negative frequency
 opposite to the first one for bosons

---
 c++/triqs/gfs/functions/imfreq.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/imfreq.hpp b/c++/triqs/gfs/functions/imfreq.hpp
index f92897c..b690e3a 100644
--- a/c++/triqs/gfs/functions/imfreq.hpp
+++ b/c++/triqs/gfs/functions/imfreq.hpp
@@ -257,8 +257,9 @@ namespace triqs::gfs {
   }
 
   template <typename T> void replace_by_tail(gf_view<mesh::imfreq, T> g, array_const_view<dcomplex, 1 + T::rank> tail, int n_min) {
+    int n_neg = (g.mesh().statistic() == Fermion ? -n_min - 1 : -n_min); // the frequency opposite to n_min
     for (auto iw : g.mesh())
-      if (iw.n >= n_min or iw.n < -n_min) g[iw] = tail_eval(tail, iw);
+      if (iw.n >= n_min or iw.n <= n_neg) g[iw] = tail_eval(tail, iw);
   }
 
   template <typename T> void replace_by_tail_in_fit_window(gf_view<mesh::imfreq, T> g, array_const_view<dcomplex, 1 + T::rank> tail) {
-- 
2.43.0


From d6296572baab77362d87d33c161b5bfe2f9ad26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:17 +0000
Subject: [PATCH 109/119] fix: tail fits with more than ten known moments wrote
 out of bounds

---
 c++/triqs/mesh/tail_fitter.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/mesh/tail_fitter.hpp b/c++/triqs/mesh/tail_fitter.hpp
index 5083b9b..5b11e61 100644
--- a/c++/triqs/mesh/tail_fitter.hpp
+++ b/c++/triqs/mesh/tail_fitter.hpp
@@ -72,8 +72,8 @@ namespace triqs::mesh {
     const bool _adjust_order;
     const int _expansion_order;
     const double _rcond = 1e-8;
-    std::array<std::unique_ptr<const nda::lapack::gelss_worker<dcomplex>>, max_order + 1> _lss;
-    std::array<std::unique_ptr<const nda::lapack::gelss_worker_hermitian>, max_order + 1> _lss_hermitian;
+    std::vector<std::unique_ptr<const nda::lapack::gelss_worker<dcomplex>>> _lss; // one for every number of known moments
+    std::vector<std::unique_ptr<const nda::lapack::gelss_worker_hermitian>> _lss_hermitian;
     nda::matrix<dcomplex> _vander;
     std::vector<long> _fit_idx_lst;
 
@@ -82,7 +82,9 @@ namespace triqs::mesh {
        : _tail_fraction(tail_fraction),
          _n_tail_max(n_tail_max),
          _adjust_order(not expansion_order.has_value()),
-         _expansion_order(_adjust_order ? max_order : *expansion_order) {}
+         _expansion_order(_adjust_order ? max_order : *expansion_order),
+         _lss(std::max(_expansion_order + 1, 0)),
+         _lss_hermitian(std::max(_expansion_order + 1, 0)) {}
     //----------------------------------------------------------------------------------------------
 
     // number of the points in the tail for positive omega.
-- 
2.43.0


From 80676dc6699abfdef57f4d4bc15ae2eefa8f3a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 110/119] fix: transform from Legendre coefficients to bosonic
 frequencies used the fermionic frequencies

---
 c++/triqs/gfs/transform/legendre_matsubara.hpp |  4 +++-
 c++/triqs/utility/legendre.cpp                 | 13 +++++++++++++
 c++/triqs/utility/legendre.hpp                 |  3 +++
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/transform/legendre_matsubara.hpp b/c++/triqs/gfs/transform/legendre_matsubara.hpp
index 454dd6a..7821513 100644
--- a/c++/triqs/gfs/transform/legendre_matsubara.hpp
+++ b/c++/triqs/gfs/transform/legendre_matsubara.hpp
@@ -44,8 +44,10 @@ namespace triqs::gfs {
     gw() = 0.0;
 
     // Use the transformation matrix
+    bool is_boson = (gw.mesh().statistic() == Boson);
     for (auto om : gw.mesh()) {
-      for (auto l : gl.mesh()) { gw[om] += triqs::utility::legendre_T(om.index(), l.index()) * gl[l]; }
+      for (auto l : gl.mesh())
+        gw[om] += (is_boson ? triqs::utility::legendre_T_boson(om.index(), l.index()) : triqs::utility::legendre_T(om.index(), l.index())) * gl[l];
     }
   }
 
diff --git a/c++/triqs/utility/legendre.cpp b/c++/triqs/utility/legendre.cpp
index 4c82dbb..d51c407 100644
--- a/c++/triqs/utility/legendre.cpp
+++ b/c++/triqs/utility/legendre.cpp
@@ -39,6 +39,19 @@ std::complex<double> triqs::utility::legendre_T(int n, int l) {
   return neg_n ? std::conj(res) : res;
 }
 
+std::complex<double> triqs::utility::legendre_T_boson(int n, int l) {
+
+  if (n == 0) return (l == 0 ? 1.0 : 0.0);
+
+  // sqrt(2l+1) (-1)^n i^l j_l(n pi) with the spherical Bessel function j_l (x) = \sqrt{\pi / (2x)} J_{l+0.5} (x)
+  double x = std::abs(n) * M_PI;
+  std::complex<double> res =
+     sqrt(2 * l + 1) * (n % 2 == 0 ? 1.0 : -1.0) * std::pow(1i, l) * sqrt(M_PI / (2 * x)) * boost::math::cyl_bessel_j(l + 0.5, x);
+
+  // T_{-nl} = T_{nl}^*
+  return n < 0 ? std::conj(res) : res;
+}
+
 double triqs::utility::legendre_t(int l, int p) {
 
   // p is the 1/omega power, it can't be negative
diff --git a/c++/triqs/utility/legendre.hpp b/c++/triqs/utility/legendre.hpp
index 2775761..8024cef 100644
--- a/c++/triqs/utility/legendre.hpp
+++ b/c++/triqs/utility/legendre.hpp
@@ -27,6 +27,9 @@ namespace triqs::utility {
   // This is T_{nl} following Eq.(E2) of our paper
   std::complex<double> legendre_T(int n, int l);
 
+  // The same for bosonic Matsubara frequencies
+  std::complex<double> legendre_T_boson(int n, int l);
+
   // This is t_l^p following Eq.(E8) of our paper
   double legendre_t(int l, int p);
 
-- 
2.43.0


From 35ba1ee624e1d52058e195975994a7d6612622eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 111/119] fix: cbegin and cend of a block gf returned iterators
 into a destroyed temporary view

---
 c++/triqs/gfs/block/_block_gf_view_common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/gfs/block/_block_gf_view_common.hpp b/c++/triqs/gfs/block/_block_gf_view_common.hpp
index d2f6c73..0308179 100644
--- a/c++/triqs/gfs/block/_block_gf_view_common.hpp
+++ b/c++/triqs/gfs/block/_block_gf_view_common.hpp
@@ -269,5 +269,5 @@ iterator begin() { return {*this, false}; }
 const_iterator begin() const { return {*this, false}; }
 iterator end() { return {*this, true}; }
 const_iterator end() const { return {*this, true}; }
-auto cbegin() { return const_view_type(*this).begin(); }
-auto cend() { return const_view_type(*this).end(); }
+const_iterator cbegin() const { return begin(); }
+const_iterator cend() const { return end(); }
-- 
2.43.0


From 26191569b6cafc8bef6e3414734e34ed91cdb6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:07 +0000
Subject: [PATCH 112/119] fix: an empty block2 gf could neither be built from
 an empty vector nor asked for its size

---
 c++/triqs/gfs/block/_block_gf_view_common.hpp | 2 +-
 c++/triqs/gfs/block/block_gf.hpp              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/gfs/block/_block_gf_view_common.hpp b/c++/triqs/gfs/block/_block_gf_view_common.hpp
index 0308179..4a21be2 100644
--- a/c++/triqs/gfs/block/_block_gf_view_common.hpp
+++ b/c++/triqs/gfs/block/_block_gf_view_common.hpp
@@ -45,7 +45,7 @@ int size1() const
 int size2() const
   requires(Arity == 2)
 {
-  return _glist.at(0).size();
+  return _glist.empty() ? 0 : _glist[0].size();
 }
 int size() const {
   if constexpr (Arity == 1) {
diff --git a/c++/triqs/gfs/block/block_gf.hpp b/c++/triqs/gfs/block/block_gf.hpp
index a834b27..3cfaa54 100644
--- a/c++/triqs/gfs/block/block_gf.hpp
+++ b/c++/triqs/gfs/block/block_gf.hpp
@@ -237,7 +237,7 @@ namespace triqs::gfs {
     /// Construct from a vector of gf
     block_gf(data_t V)
       requires(Arity == 2)
-       : _block_names(details::_make_block_names2(V.size(), V[0].size())), _glist(std::move(V)) {}
+       : _block_names(details::_make_block_names2(V.size(), V.empty() ? 0 : V[0].size())), _glist(std::move(V)) {}
 
     /// ---------------  Operator = --------------------
 
-- 
2.43.0


From ef157096a6060724fe7c55d3e1f001807d045c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:07 +0000
Subject: [PATCH 113/119] fix: block2 gf constructors only checked the size of
 the first row of blocks

---
 c++/triqs/gfs/block/block_gf.hpp      | 9 ++++++---
 c++/triqs/gfs/block/block_gf_view.hpp | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/gfs/block/block_gf.hpp b/c++/triqs/gfs/block/block_gf.hpp
index 3cfaa54..ad50a3d 100644
--- a/c++/triqs/gfs/block/block_gf.hpp
+++ b/c++/triqs/gfs/block/block_gf.hpp
@@ -149,8 +149,8 @@ namespace triqs::gfs {
       } else {
         if (_glist.size() != _block_names[0].size())
           TRIQS_RUNTIME_ERROR << "block2_gf(vector<vector<string>>, vector<vector<gf>>) : Outer vectors have different sizes !";
-        if (_glist.size() != 0)
-          if (_glist[0].size() != _block_names[1].size())
+        for (auto const &gl : _glist)
+          if (gl.size() != _block_names[1].size())
             TRIQS_RUNTIME_ERROR << "block2_gf(vector<vector<string>>, vector<vector<gf>>) : Inner vectors have different sizes !";
       }
     }
@@ -237,7 +237,10 @@ namespace triqs::gfs {
     /// Construct from a vector of gf
     block_gf(data_t V)
       requires(Arity == 2)
-       : _block_names(details::_make_block_names2(V.size(), V.empty() ? 0 : V[0].size())), _glist(std::move(V)) {}
+       : _block_names(details::_make_block_names2(V.size(), V.empty() ? 0 : V[0].size())), _glist(std::move(V)) {
+      for (auto const &gl : _glist)
+        if (gl.size() != _block_names[1].size()) TRIQS_RUNTIME_ERROR << "block2_gf(vector<vector<gf>>) : Inner vectors have different sizes !";
+    }
 
     /// ---------------  Operator = --------------------
 
diff --git a/c++/triqs/gfs/block/block_gf_view.hpp b/c++/triqs/gfs/block/block_gf_view.hpp
index efaa3c3..8b51af6 100644
--- a/c++/triqs/gfs/block/block_gf_view.hpp
+++ b/c++/triqs/gfs/block/block_gf_view.hpp
@@ -70,8 +70,8 @@ namespace triqs::gfs {
       } else {
         if (_glist.size() != _block_names[0].size())
           TRIQS_RUNTIME_ERROR << "block2_gf(vector<vector<string>>, vector<vector<gf>>) : Outer vectors have different sizes !";
-        if (_glist.size() != 0)
-          if (_glist[0].size() != _block_names[1].size())
+        for (auto const &gl : _glist)
+          if (gl.size() != _block_names[1].size())
             TRIQS_RUNTIME_ERROR << "block2_gf(vector<vector<string>>, vector<vector<gf>>) : Inner vectors have different sizes !";
       }
     }
-- 
2.43.0


From aa2a0ecf1e86cea091b4a81ecad6f5764c82d017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 114/119] fix: the opposite of a block gf could not be used to
 build or assign a block gf

---
 c++/triqs/gfs/block/expr.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c++/triqs/gfs/block/expr.hpp b/c++/triqs/gfs/block/expr.hpp
index 2a2acf9..ed793e7 100644
--- a/c++/triqs/gfs/block/expr.hpp
+++ b/c++/triqs/gfs/block/expr.hpp
@@ -107,10 +107,14 @@ namespace triqs {
       using mesh_t   = typename L_t::mesh_t;
       using target_t = typename L_t::target_t;
 
+      static constexpr int arity = arity_of<L_t>;
+
       L l;
       template <typename LL> bgf_unary_m_expr(LL &&l_) : l(std::forward<LL>(l_)) {}
 
       auto size() const { return l.size(); }
+      auto size1() const { return l.size1(); }
+      auto size2() const { return l.size2(); }
       auto block_names() const { return l.block_names(); }
 
       template <typename... Keys> auto operator[](Keys &&...keys) const { return -l.operator[](std::forward<Keys>(keys)...); } // Clang fix
-- 
2.43.0


From 95c6bca8a8f5eda8b38ead0596ab5d958097958f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 115/119] fix: combining block gfs with different numbers of
 blocks read out of bounds

---
 c++/triqs/gfs/block/expr.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/block/expr.hpp b/c++/triqs/gfs/block/expr.hpp
index ed793e7..af11e3d 100644
--- a/c++/triqs/gfs/block/expr.hpp
+++ b/c++/triqs/gfs/block/expr.hpp
@@ -76,7 +76,15 @@ namespace triqs {
 
       L l;
       R r;
-      template <typename LL, typename RR> bgf_expr(LL &&l_, RR &&r_) : l(std::forward<LL>(l_)), r(std::forward<RR>(r_)) {}
+      template <typename LL, typename RR> bgf_expr(LL &&l_, RR &&r_) : l(std::forward<LL>(l_)), r(std::forward<RR>(r_)) {
+        if constexpr (arity_of<L_t> == 1 and arity_of<R_t> == 1) {
+          if (l.size() != r.size()) TRIQS_RUNTIME_ERROR << "Block Green Function Expression: incompatible sizes " << l.size() << " vs " << r.size();
+        } else if constexpr (arity_of<L_t> == 2 and arity_of<R_t> == 2) {
+          if (l.size1() != r.size1() or l.size2() != r.size2())
+            TRIQS_RUNTIME_ERROR << "Block Green Function Expression: incompatible sizes (" << l.size1() << "," << l.size2() << ") vs (" << r.size1() << ","
+                                << r.size2() << ")";
+        }
+      }
 
       auto size() const { return std::max(l.size(), r.size()); }
       auto size1() const { return std::max(l.size1(), r.size1()); }
-- 
2.43.0


From 1a044f94a480c5a7f9600e41cfa612d803f7581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:25 +0000
Subject: [PATCH 116/119] fix: assigning to a block gf view did not check the
 number of blocks of another view, nor the two sizes of a block2 gf

---
 c++/triqs/gfs/block/block_gf_view.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/block/block_gf_view.hpp b/c++/triqs/gfs/block/block_gf_view.hpp
index 8b51af6..4e0bc0c 100644
--- a/c++/triqs/gfs/block/block_gf_view.hpp
+++ b/c++/triqs/gfs/block/block_gf_view.hpp
@@ -96,10 +96,20 @@ namespace triqs::gfs {
 
     /// ---------------  Operator = --------------------
 
+    private:
+    // a view can not be resized
+    template <typename RHS> void _check_size(RHS const &rhs) const {
+      bool ok = (size() == rhs.size());
+      if constexpr (Arity == 2) ok = (size1() == rhs.size1() and size2() == rhs.size2());
+      if (not ok) TRIQS_RUNTIME_ERROR << "Gf Assignment in View : incompatible size" << size() << " vs " << rhs.size();
+    }
+
+    public:
     /// Copy the data, without resizing the view.
     block_gf_view &operator=(block_gf_view const &rhs)
       requires(not IsConst)
     {
+      _check_size(rhs);
       _assign_impl(rhs);
       return *this;
     }
@@ -112,7 +122,7 @@ namespace triqs::gfs {
       requires(not IsConst)
     {
       if constexpr (not nda::is_scalar_v<RHS>) {
-        if (!(size() == rhs.size())) TRIQS_RUNTIME_ERROR << "Gf Assignment in View : incompatible size" << size() << " vs " << rhs.size();
+        _check_size(rhs);
         _assign_impl(rhs);
       } else {
         if constexpr (Arity == 1) {
@@ -134,6 +144,7 @@ namespace triqs::gfs {
     block_gf_view &operator=(lazy_transform_t<L, G> const &rhs)
       requires(not IsConst)
     {
+      _check_size(rhs.value);
       if constexpr (Arity == 1) {
         for (int i = 0; i < rhs.value.size(); ++i) (*this)[i] = rhs.lambda(rhs.value[i]);
       } else {
-- 
2.43.0


From 6a9c2d1f22caac3264f2c8e381ddeae006988060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:41 +0000
Subject: [PATCH 117/119] fix: the Fourier transform of a tight-binding
 Hamiltonian without hoppings read out of bounds

---
 c++/triqs/lattice/tight_binding.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/lattice/tight_binding.hpp b/c++/triqs/lattice/tight_binding.hpp
index a657b6b..7217023 100644
--- a/c++/triqs/lattice/tight_binding.hpp
+++ b/c++/triqs/lattice/tight_binding.hpp
@@ -101,9 +101,15 @@ namespace triqs {
             return nda::blas::outer_product(exp_j, overlap_mat_vec_[j]);
           }
         };
-        auto res = make_regular(vals(0));
-        for (int i = 1; i < displ_vec_.size(); ++i) res += vals(i);
-        return res;
+        auto sum = [&](auto res) {
+          for (int i = 0; i < displ_vec_.size(); ++i) res += vals(i);
+          return res;
+        };
+        if constexpr (nda::ArrayOfRank<K, 1>) {
+          return sum(nda::matrix<dcomplex>::zeros({n_orbitals(), n_orbitals()}));
+        } else { // Rank==2
+          return sum(nda::array<dcomplex, 3>::zeros({k_ndim.shape()[0], n_orbitals(), n_orbitals()}));
+        }
       }
 
       /**
-- 
2.43.0


From 34e58fb899ffc455233e6f11eac9023209780382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:41 +0000
Subject: [PATCH 118/119] fix: the density of states of a flat band was binned
 out of bounds

---
 c++/triqs/lattice/tight_binding.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/c++/triqs/lattice/tight_binding.cpp b/c++/triqs/lattice/tight_binding.cpp
index ab8f663..4348e9d 100644
--- a/c++/triqs/lattice/tight_binding.cpp
+++ b/c++/triqs/lattice/tight_binding.cpp
@@ -84,6 +84,10 @@ namespace triqs {
       array<double, 1> epsilon(neps);
       double epsmax = max_element(eval);
       double epsmin = min_element(eval);
+      if (epsmin == epsmax) { // flat bands: a window of width 1 around the energy
+        epsmin -= 0.5;
+        epsmax += 0.5;
+      }
       double deps   = (epsmax - epsmin) / neps;
       // for (int i =0; i< neps; ++i) epsilon(i)= epsmin+i/(neps-1.0)*(epsmax-epsmin);
       for (int i = 0; i < neps; ++i) epsilon(i) = epsmin + (i + 0.5) * deps;
@@ -175,6 +179,11 @@ namespace triqs {
       // check consistency
       assert(k_index == nk);
 
+      if (epsmin == epsmax) { // flat band: a window of width 1 around the energy
+        epsmin -= 0.5;
+        epsmax += 0.5;
+      }
+
       // define the epsilon mesh, etc.
       array<double, 1> epsilon(neps);
       double deps = (epsmax - epsmin) / neps;
-- 
2.43.0


From 4a8690ccbdebb2c3e7a63a7f0685393af278e7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:41 +0000
Subject: [PATCH 119/119] fix: dos_patch used a wrong range of energies for
 bands above or below 1e5

---
 c++/triqs/lattice/tight_binding.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/lattice/tight_binding.cpp b/c++/triqs/lattice/tight_binding.cpp
index 4348e9d..e364de6 100644
--- a/c++/triqs/lattice/tight_binding.cpp
+++ b/c++/triqs/lattice/tight_binding.cpp
@@ -21,6 +21,7 @@
 #include <nda/algorithms.hpp>
 #include <nda/linalg/eigenelements.hpp>
 #include "grid_generator.hpp"
+#include <limits>
 namespace triqs {
   namespace lattice {
 
@@ -130,7 +131,7 @@ namespace triqs {
       // Every triangle has ndiv*ndiv k points
       int nk        = ntri * ndiv * ndiv;
       int k_index   = 0;
-      double epsmax = -100000, epsmin = 100000;
+      double epsmax = -std::numeric_limits<double>::infinity(), epsmin = std::numeric_limits<double>::infinity();
       array<dcomplex, 2> thop(1, 1);
       array<double, 1> energ(nk), weight(nk);
 
-- 
2.43.0

