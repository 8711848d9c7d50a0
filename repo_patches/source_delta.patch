From 67511979795233a90127ae62449e86285bef7a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 01/48] fix: readers waiting for a cached value again wait
 after the value has been cleared

CachedValue only ever took waiting_lock in its constructor, and released it
after the first calculation. When the value was recalculated after a clear,
concurrent readers did not wait, and returned the old or an unset value.
---
 src/caching.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/caching.h b/src/caching.h
index df6ee91..9d77e93 100644
--- a/src/caching.h
+++ b/src/caching.h
@@ -385,7 +385,6 @@ namespace SLAT {
                  * only once.
                  */
                 omp_init_lock(&waiting_lock);
-                omp_set_lock(&waiting_lock);
 
                 // Set member variables:
                 in_process = false; 
@@ -443,9 +442,12 @@ namespace SLAT {
                         omp_set_lock(&lock); // Re-take the lock before returning the value
                     } else {
                         /*
-                         * This is the first request--calculate the value.
+                         * This is the first request--calculate the value. Take
+                         * the 'waiting_lock' while holding the object lock, so
+                         * anyone who finds 'in_process' set will wait for us.
                          */
                         in_process = true;
+                        omp_set_lock(&waiting_lock);
                         omp_unset_lock(&lock); // Release the lock while calculating
                         
                         T result = func();
-- 
2.43.0


From 925610fb51f1042ceb9ba788f1d115228cd3590d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 02/48] fix: clearing a cache while a calculation is running no
 longer leaves stale or unset results

ClearCache() took no lock, so it raced with calls in other threads; results of
calculations started before the clear were cached after it; and a thread waiting
for such a calculation could find nothing in the cache, and return (and cache) a
default value. Clear under the lock, remember that the cache was cleared while a
calculation was running, and have waiting threads check the cache again.
---
 src/caching.h | 122 +++++++++++++++++++++++++++++---------------------
 1 file changed, 72 insertions(+), 50 deletions(-)

diff --git a/src/caching.h b/src/caching.h
index 9d77e93..2d54607 100644
--- a/src/caching.h
+++ b/src/caching.h
@@ -21,6 +21,7 @@
 
 #include <unordered_map>
 #include <functional>
+#include <memory>
 #include <iostream>
 #include <iomanip>
 #include <string>
@@ -121,6 +122,7 @@ namespace SLAT {
                 cache_active = activate_cache;
                 hits = 0;
                 total_calls = 0;
+                generation = 0;
                 func = base_func; 
 
                 // Tell the caching module about this object:
@@ -175,44 +177,41 @@ namespace SLAT {
                      */
                     bool cached = cache.count(v) != 0;
 
-                    if (!cached) {
+                    if (cached) {
+                        // Record cache hit
+                        hits++;
+                    }
+                    
+                    while (!cached) {
                         /*
                          * The value isn't cached, so we need to calculate
                          * it. For efficiency, we only want to calculate it
                          * once. We use a map 'in_process' to record which
                          * values are being actively calculated at a given
-                         * time. Each entry in 'in_process' has a lock and a
-                         * count.
+                         * time. Each entry in 'in_process' has a lock, which is
+                         * held until the calculation has finished.
                          */
                         bool happening = in_process.count(v) != 0;
                         if (happening) {
                             /*
                              *  The calculation is already being
-                             *  performed. Increment the count, release the lock
-                             *  for this object, and then take corresponding
-                             *  'in_process' lock.
+                             *  performed. Release the lock for this object, and
+                             *  then wait for the corresponding 'in_process'
+                             *  lock.
                              */
-                            in_process[v].count++;
-                            omp_lock_t *calc_lock = &in_process[v].lock;
+                            std::shared_ptr<WAITING> waiting = in_process[v];
                             omp_unset_lock(&lock);
-                            omp_set_lock(calc_lock);
+                            omp_set_lock(&waiting->lock);
+                            omp_unset_lock(&waiting->lock); // Release for anyone else who's waiting
 
                             /*
-                             * Once we have calc_lock, we know the value is in
-                             * the cache. Wait for the object lock, then
-                             * decrement the 'in_process' count for the
-                             * requested value. If it isn't zero, there's
-                             * someone else waiting, so release the lock. If
-                             * we're the last one, erase the appropriate
-                             * 'in_process' element.
+                             * Once we have had the 'in_process' lock, the
+                             * calculation has finished. Normally the value is
+                             * in the cache now, but the cache may have been
+                             * cleared in the meantime, so check again.
                              */
                             omp_set_lock(&lock);
-                            in_process[v].count--;
-                            if (in_process[v].count > 0) {
-                                omp_unset_lock(&in_process[v].lock);
-                            } else {
-                                in_process.erase(v);
-                            }
+                            cached = cache.count(v) != 0;
                         } else {
                             /*
                              * We're the first one to request this
@@ -220,9 +219,10 @@ namespace SLAT {
                              * release the object while the calculation is
                              * performed.
                              */
-                            omp_init_lock(&in_process[v].lock);
-                            omp_set_lock(&in_process[v].lock);
-                            in_process[v].count = 0;
+                            std::shared_ptr<WAITING> waiting = std::make_shared<WAITING>();
+                            omp_set_lock(&waiting->lock);
+                            in_process[v] = waiting;
+                            const unsigned long started_in = generation;
                             omp_unset_lock(&lock);
 
                             T result = func(v);  // Perform calculation
@@ -238,27 +238,26 @@ namespace SLAT {
                              */
                             if (cache.count(v) != 0) {
                                 std::cout << "DUPLICATE (f): " << name << " at " << v << std::endl;
-                                std::cout << in_process[v].count << std::endl;
                                 raise(SIGINT);
                             }
 
-                            cache[v] = result; // Save the result
-
                             /*
-                             * If no one else is interested in the result,
-                             * remove the 'in_process' entry; otherwise, release
-                             * the 'in_process' lock to signal other interested
-                             * parties.
+                             * Save the result, unless the cache was cleared
+                             * while it was being calculated.
                              */
-                            if (in_process[v].count == 0) {
-                                in_process.erase(v);
-                            } else {
-                                omp_unset_lock(&in_process[v].lock);
+                            if (started_in == generation) {
+                                cache[v] = result;
                             }
+
+                            /*
+                             * Remove the 'in_process' entry, and release its
+                             * lock to signal other interested parties.
+                             */
+                            in_process.erase(v);
+                            omp_unset_lock(&waiting->lock);
+                            omp_unset_lock(&lock);
+                            return result;
                         }
-                    } else {
-                        // Record cache hit
-                        hits++;
                     }
                     
                     /*
@@ -285,7 +284,10 @@ namespace SLAT {
              * Clear the cache for just this object.
              */
             void ClearCache(void) {
+                omp_set_lock(&lock);
                 cache.clear(); 
+                generation++; // Don't save results of calculations already in process
+                omp_unset_lock(&lock);
             };
         private:
             /// This will perform the calculation that we're caching.
@@ -302,12 +304,16 @@ namespace SLAT {
 
             /// Structure for recording calcuations in process.
             struct WAITING {
-                omp_lock_t lock; ///< Lock for this record
-                int count;       ///< Count of waiting clients
+                WAITING() { omp_init_lock(&lock); };
+                ~WAITING() { omp_destroy_lock(&lock); };
+                omp_lock_t lock; ///< Lock for this record; held until the calculation is done
             };
 
             /// Map of calculations in process.
-            std::unordered_map<V, struct WAITING> in_process;
+            std::unordered_map<V, std::shared_ptr<WAITING>> in_process;
+
+            /// Incremented each time the cache is cleared
+            unsigned long generation;
 
             /// OpenMP lock for this object
             omp_lock_t lock;
@@ -357,6 +363,8 @@ namespace SLAT {
             T cached_value;  ///< The result of the calculation
 
             bool cache_valid; ///< Is the stored result valid?
+
+            unsigned long generation; ///< Incremented each time the value is cleared
             
             int hits;        ///< Hit counter (for development)
             int total_calls; ///< Count of total calls (for development)
@@ -390,6 +398,7 @@ namespace SLAT {
                 in_process = false; 
                 this->name = name;
                 cache_valid = false;
+                generation = 0;
                 total_calls = 0;     
                 hits = 0;
                 func = base_func; 
@@ -429,11 +438,17 @@ namespace SLAT {
                  * calculate it; if the calculation is already in process, wait
                  * for it to finish.
                  */
-                if (!cache_valid) {
+                if (cache_valid) {
+                    // Already cached; no need to calculate
+                    hits++;
+                }
+
+                while (!cache_valid) {
                     /*
                      * The calculating is being performed. Release the object
                      * lock, then wait for the 'waiting_lock' to indicate the
-                     * calculation has been completed.
+                     * calculation has been completed. The value may have been
+                     * cleared by then, so check again.
                      */
                     if (in_process) {
                         omp_unset_lock(&lock);
@@ -448,6 +463,7 @@ namespace SLAT {
                          */
                         in_process = true;
                         omp_set_lock(&waiting_lock);
+                        const unsigned long started_in = generation;
                         omp_unset_lock(&lock); // Release the lock while calculating
                         
                         T result = func();
@@ -462,15 +478,18 @@ namespace SLAT {
                             raise(SIGINT);
                         }
                         
-                        // Save the result, and release the 'waiting_lock' to anyone waiting
-                        cached_value = result;
-                        cache_valid = true;
+                        // Save the result, unless the value was cleared while it
+                        // was being calculated, and release the 'waiting_lock'
+                        // to anyone waiting
+                        if (started_in == generation) {
+                            cached_value = result;
+                            cache_valid = true;
+                        }
                         in_process = false;
                         omp_unset_lock(&waiting_lock);
+                        omp_unset_lock(&lock);
+                        return result;
                     }                        
-                } else {
-                    // Already cached; no need to calculate
-                    hits++;
                 }
 
                 /*
@@ -487,7 +506,10 @@ namespace SLAT {
              * Clear the cache for just this object.
              */
             void ClearCache(void) {
+                omp_set_lock(&lock);
                 cache_valid = false;
+                generation++; // Don't save the result of a calculation already in process
+                omp_unset_lock(&lock);
             };
         };
     }
-- 
2.43.0


From e644781e8dead267c3766864de63810347fe3612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:00 +0000
Subject: [PATCH 03/48] fix: an exception in a cached calculation no longer
 blocks every later call

The record of the calculation in process was left behind when it threw, so the
next caller for the same value waited for it for ever.
---
 src/caching.h | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/caching.h b/src/caching.h
index 2d54607..739a899 100644
--- a/src/caching.h
+++ b/src/caching.h
@@ -225,7 +225,7 @@ namespace SLAT {
                             const unsigned long started_in = generation;
                             omp_unset_lock(&lock);
 
-                            T result = func(v);  // Perform calculation
+                            T result = Calculate(v, waiting);  // Perform calculation
                             
                             omp_set_lock(&lock); // Get object lock
                             
@@ -315,6 +315,23 @@ namespace SLAT {
             /// Incremented each time the cache is cleared
             unsigned long generation;
 
+            /**
+             * Perform the calculation. If it fails, forget about it and let
+             * anyone who is waiting try for themselves, before passing the
+             * exception on.
+             */
+            T Calculate(V v, std::shared_ptr<WAITING> waiting) {
+                try {
+                    return func(v);
+                } catch (...) {
+                    omp_set_lock(&lock);
+                    in_process.erase(v);
+                    omp_unset_lock(&waiting->lock);
+                    omp_unset_lock(&lock);
+                    throw;
+                }
+            }
+
             /// OpenMP lock for this object
             omp_lock_t lock;
 
@@ -370,6 +387,22 @@ namespace SLAT {
             int total_calls; ///< Count of total calls (for development)
             std::string name;  ///< (Optional) object name
 
+            /**
+             * Perform the calculation. If it fails, let anyone who is waiting
+             * try for themselves, before passing the exception on.
+             */
+            T Calculate(void) {
+                try {
+                    return func();
+                } catch (...) {
+                    omp_set_lock(&lock);
+                    in_process = false;
+                    omp_unset_lock(&waiting_lock);
+                    omp_unset_lock(&lock);
+                    throw;
+                }
+            }
+
         public:
             /**
              * Constructor requires a function object; name string is optional,
@@ -466,7 +499,7 @@ namespace SLAT {
                         const unsigned long started_in = generation;
                         omp_unset_lock(&lock); // Release the lock while calculating
                         
-                        T result = func();
+                        T result = Calculate();
                         
                         omp_set_lock(&lock); // Lock before saving to cache
                         /*
-- 
2.43.0


From 1b960c7ced6eee7aff6c420a787c5e1f241ade5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:12 +0000
Subject: [PATCH 04/48] fix: replacing an object no longer loses or mixes up
 its replacement's clients

replace() overwrote the callbacks already registered with the replacement;
clients registered with the replacement later got ids already in use by the
clients handed over, displacing them (and removing them when destroyed); and
replacing an object with itself dropped all its clients.
---
 src/replaceable.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/replaceable.h b/src/replaceable.h
index a61bbb9..5cbcc7d 100644
--- a/src/replaceable.h
+++ b/src/replaceable.h
@@ -11,6 +11,8 @@
  */
 #ifndef _REPLACEABLE_H_
 #define _REPLACEABLE_H_
+#include <atomic>
+#include <functional>
 #include <map>
 #include <memory>
 #include <iostream>
@@ -67,15 +69,17 @@ namespace SLAT {
         std::map<int, callback_struct> callbacks;
 
         /**
-         * id_counter is used as the key for clients. It is incremented by
-         * add_callbacks().  Client ids do not need to be sequential; just
-         * unique. This is an easy way to ensure that, but other mechanisms
-         * could be used without affecting anything outside this template.
+         * next_id() provides the keys for clients.  Client ids do not need to be
+         * sequential; just unique. They have to be unique among all objects
+         * which might replace each other, because clients keep their id when
+         * they are handed over to a replacement.
          */
-        int id_counter;
+        static int next_id(void) {
+            static std::atomic<int> id_counter(0);
+            return ++id_counter;
+        }
     public:
         Replaceable()  { 
-            id_counter = 0;
             omp_init_lock(&lock);
         };
         
@@ -83,8 +87,8 @@ namespace SLAT {
                           std::function<void (std::shared_ptr<T>)> replace)
         {
             omp_set_lock(&lock);
-            int result = ++id_counter;
-            callbacks[id_counter] = {changed, replace};
+            int result = next_id();
+            callbacks[result] = {changed, replace};
             omp_unset_lock(&lock);
             return result;
         }
@@ -104,8 +108,14 @@ namespace SLAT {
         }
 
         void replace(std::shared_ptr<T> replacement) {
+            if (replacement.get() == this) {
+                return; // Nothing to hand over
+            }
             omp_set_lock(&lock);
-            replacement->callbacks = callbacks;
+            Replaceable<T> &heir = *replacement;
+            omp_set_lock(&heir.lock);
+            heir.callbacks.insert(callbacks.begin(), callbacks.end());
+            omp_unset_lock(&heir.lock);
             for (auto it=callbacks.begin(); it != callbacks.end();) {
                 it->second.replace_cb(replacement);
                 it = callbacks.erase(it);
-- 
2.43.0


From 48cc255782a9b4f0cb86f9bc1b28acdbe5f8b8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 05/48] fix: recalculate collapse and demolition rates when
 what they depend on changes

Neither rate was cleared when the IM's function changed or was replaced, and the
rate of demolition was not cleared when the probability of collapse changed.
---
 src/relationships.cpp | 4 ++++
 src/relationships.h   | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/relationships.cpp b/src/relationships.cpp
index dc212fe..3a0a0d0 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -49,9 +49,13 @@ namespace SLAT {
         f = func;
         callback_id = f->add_callbacks(
             [this] (void) {
+                this->CollapseRate.ClearCache();
+                this->DemolitionRate.ClearCache();
                 this->notify_change();
             },
             [this] (std::shared_ptr<DeterministicFn> new_f) {
+                this->CollapseRate.ClearCache();
+                this->DemolitionRate.ClearCache();
                 this->f = new_f;
                 this->notify_change();
             });
diff --git a/src/relationships.h b/src/relationships.h
index 96fd2ff..d042b81 100644
--- a/src/relationships.h
+++ b/src/relationships.h
@@ -74,6 +74,7 @@ namespace SLAT {
         void SetCollapse(std::shared_ptr<LogNormalDist> new_collapse)
         {
             CollapseRate.ClearCache();
+            DemolitionRate.ClearCache(); // Demolition depends on collapse
             collapse = new_collapse;
             notify_change();
         }
@@ -81,6 +82,7 @@ namespace SLAT {
         void SetCollapse(LogNormalDist new_collapse)
         {
             CollapseRate.ClearCache();
+            DemolitionRate.ClearCache(); // Demolition depends on collapse
             collapse = std::make_shared<LogNormalDist>(new_collapse);
             notify_change();
         }
-- 
2.43.0


From 2b67c9f078020bef530f6957545578de97a020c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 06/48] fix: replacing a compound EDP's second function no
 longer overwrites its first

---
 src/relationships.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/relationships.cpp b/src/relationships.cpp
index 3a0a0d0..c05fbce 100644
--- a/src/relationships.cpp
+++ b/src/relationships.cpp
@@ -407,7 +407,7 @@ namespace SLAT {
             },
             [this] (std::shared_ptr<ProbabilisticFn> new_dependent_rate) {
                 this->lambda.ClearCache();
-                this->dependent_rate = new_dependent_rate;
+                this->second_dependent_rate = new_dependent_rate;
                 this->notify_change();
             });
     }
-- 
2.43.0


From 79153ffab1a5c3c2219cda7dc80ecedb1e55c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 07/48] fix: component groups tell their clients when something
 they depend on changes

A structure's annual cost was not recalculated when the demand, fragility or loss
functions of one of its component groups changed or were replaced.
---
 src/comp_group.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/comp_group.cpp b/src/comp_group.cpp
index 6df2b7a..3ff0941 100644
--- a/src/comp_group.cpp
+++ b/src/comp_group.cpp
@@ -93,6 +93,7 @@ namespace SLAT {
                 this->cost_EDP_dist.ClearCache();
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
+                this->notify_change();
             },
             [this] (std::shared_ptr<EDP> new_edp) {
                 this->E_cost_IM.ClearCache();
@@ -105,6 +106,7 @@ namespace SLAT {
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
                 this->edp = new_edp;
+                this->notify_change();
             });
         /*
          * When the fragility changes or is replaced, clear the cached values.
@@ -120,6 +122,7 @@ namespace SLAT {
                 this->cost_EDP_dist.ClearCache();
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
+                this->notify_change();
             },
             [this] (std::shared_ptr<FragilityFn> new_frag_fn) {
                 this->E_cost_IM.ClearCache();
@@ -132,6 +135,7 @@ namespace SLAT {
                 this->delay_EDP_dist.ClearCache();
                 this->Rate.ClearCache();
                 this->frag_fn = new_frag_fn;
+                this->notify_change();
             });
         /*
          * When the cost changes or is replaced, clear the cached values.
@@ -146,6 +150,7 @@ namespace SLAT {
                     this->cost_EDP_dist.ClearCache();
                     this->delay_EDP_dist.ClearCache();
                     this->Rate.ClearCache();
+                    this->notify_change();
                 },
                 [this] (std::shared_ptr<LossFn> new_cost_fn) {
                     this->E_cost_IM.ClearCache();
@@ -156,6 +161,7 @@ namespace SLAT {
                     this->delay_EDP_dist.ClearCache();
                     this->Rate.ClearCache();
                     this->cost_fn = new_cost_fn;
+                    this->notify_change();
                 });
         }
 
@@ -168,12 +174,14 @@ namespace SLAT {
                     this->E_delay_IM.ClearCache();
                     this->SD_ln_delay_IM.ClearCache();
                     this->delay_EDP_dist.ClearCache();
+                    this->notify_change();
                 },
                 [this] (std::shared_ptr<LossFn> new_delay_fn) {
                     this->E_delay_IM.ClearCache();
                     this->SD_ln_delay_IM.ClearCache();
                     this->delay_EDP_dist.ClearCache();
                     this->delay_fn = new_delay_fn;
+                    this->notify_change();
                 });
         }
     };
-- 
2.43.0


From e7dd41550a58fe2e1c4dc89eee91855df13f66ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 08/48] fix: recalculate a structure's annual cost when its
 costs or membership change

Setting the rebuild or demolition cost, or removing a component group, left the
previously calculated annual cost in place.
---
 src/structure.cpp | 1 +
 src/structure.h   | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/structure.cpp b/src/structure.cpp
index 76ccb87..8246946 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -75,6 +75,7 @@ namespace SLAT {
             if (components[i]->first == cg) {
                 std::cout << "REMOVING " << components[i]->first << std::endl;
                 components.erase(components.begin()+i);
+                this->Clear_Cache();
                 break;
             }
         }
diff --git a/src/structure.h b/src/structure.h
index 31187a2..ce3042d 100644
--- a/src/structure.h
+++ b/src/structure.h
@@ -39,10 +39,10 @@ namespace SLAT {
         COSTS CostsByFate(double im);
         Caching::CachedValue<LogNormalDist> AnnualCost;
         std::pair<LogNormalDist, LogNormalDist> DeaggregatedCost(double im);
-        void setRebuildCost(LogNormalDist dist) { rebuild_cost = dist; };
+        void setRebuildCost(LogNormalDist dist) { rebuild_cost = dist; Clear_Cache(); };
         const std::vector<std::shared_ptr<CompGroup>> Components(void);
         LogNormalDist getRebuildCost(void) { return rebuild_cost; };
-        void setDemolitionCost(LogNormalDist dist) { demolition_cost = dist; };
+        void setDemolitionCost(LogNormalDist dist) { demolition_cost = dist; Clear_Cache(); };
         LogNormalDist getDemolitionCost(void) { return demolition_cost; };
         std::string get_Name(void) const { return name; };
 
-- 
2.43.0


From b3f31d2392a651766b3e85b76175fb9a04bb5a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:01 +0000
Subject: [PATCH 09/48] fix: structures unregister their callbacks

A structure left callbacks behind with its intensity measure and component groups
when it was destroyed, and with component groups removed from it; a later change
to any of them called into the destroyed structure, or made the removed group's
replacement a client of the structure. Removing the last group and adding another
registered with the intensity measure a second time.
---
 src/structure.cpp | 16 +++++++++++++++-
 src/structure.h   |  3 ++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/structure.cpp b/src/structure.cpp
index 8246946..6926b82 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -25,6 +25,16 @@ namespace SLAT {
         this->name = name;
     };
     
+    Structure::~Structure()
+    {
+        for (size_t i=0; i < components.size(); i++) {
+            components[i]->first->remove_callbacks(components[i]->second);
+        }
+        if (im) {
+            im->remove_callbacks(im_callback_id);
+        }
+    };
+    
     const std::vector<std::shared_ptr<CompGroup>> Structure::Components(void)
     {
         std::vector<std::shared_ptr<CompGroup>> result(components.size());
@@ -43,8 +53,11 @@ namespace SLAT {
     void  Structure::AddCompGroup(std::shared_ptr<CompGroup> cg)
     {
         if (components.size() == 0) {
+            if (im) {
+                im->remove_callbacks(im_callback_id);
+            }
             im = cg->getIM();
-            im->add_callbacks(
+            im_callback_id = im->add_callbacks(
                 [this] (void) {
                     this->Clear_Cache();
                 },
@@ -74,6 +87,7 @@ namespace SLAT {
         for (size_t i=0; i < components.size(); i++) {
             if (components[i]->first == cg) {
                 std::cout << "REMOVING " << components[i]->first << std::endl;
+                cg->remove_callbacks(components[i]->second);
                 components.erase(components.begin()+i);
                 this->Clear_Cache();
                 break;
diff --git a/src/structure.h b/src/structure.h
index ce3042d..1ca314a 100644
--- a/src/structure.h
+++ b/src/structure.h
@@ -20,7 +20,7 @@ namespace SLAT {
     class Structure : public Replaceable<Structure> {
     public:
         Structure(std::string name);
-        ~Structure() {};
+        ~Structure(); /**< Destructor; unregister callbacks */
 
         void AddCompGroup(std::shared_ptr<CompGroup> cg);
         void RemoveCompGroup(std::shared_ptr<CompGroup> cg);
@@ -55,6 +55,7 @@ namespace SLAT {
         typedef std::pair<std::shared_ptr<CompGroup>, int> CG_ENTRY;
         std::vector<std::shared_ptr<CG_ENTRY>> components;
         std::shared_ptr<IM> im;
+        int im_callback_id;
         LogNormalDist rebuild_cost;
         LogNormalDist demolition_cost;
     };
-- 
2.43.0


From df9c5fdfe82c963713ec3a205331a24a0415573d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 10/48] fix: interpolated functions can be evaluated by several
 threads at once

The GSL look-up accelerator remembers the last interval; sharing it between
threads could evaluate a point with the coefficients of another interval.
---
 src/functions.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 8d6cb87..1441c16 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -221,7 +221,8 @@ namespace SLAT {
             //std::cout << "CLIPPED at " << x << std::endl;
             y = max_x.second;
         } else {
-            (void)gsl_spline_eval_e(interp, x, accel, &y);
+            // The accelerator isn't safe for use by several threads, so do without.
+            (void)gsl_spline_eval_e(interp, x, NULL, &y);
         }
         return y;
     }
@@ -270,7 +271,8 @@ namespace SLAT {
         } else if (x > max_x.first) {
             y = max_x.second;
         } else {
-            (void)gsl_spline_eval_e(interp, log(x), accel, &y);
+            // The accelerator isn't safe for use by several threads, so do without.
+            (void)gsl_spline_eval_e(interp, log(x), NULL, &y);
             y = exp(y);
 
         }
-- 
2.43.0


From 535ef35f9fab4df5a5d8a5c2522bd354f92f6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 11/48] fix: concurrent integrations no longer lose the maximum
 number of evaluations

The maxima were compared outside the critical section, so a smaller value could
overwrite a larger one.
---
 src/maq.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maq.cpp b/src/maq.cpp
index dfca708..041c9f0 100644
--- a/src/maq.cpp
+++ b/src/maq.cpp
@@ -601,8 +601,8 @@ namespace SLAT {
                 }
 #pragma omp critical
                 stats.total_search_evals += r.evaluations;
-                if (stats.max_successful_search < r.evaluations) {
 #pragma omp critical
+                if (stats.max_successful_search < r.evaluations) {
                     stats.max_successful_search = r.evaluations;
                 }
                 if (std::isnan(r.a)) {
@@ -744,8 +744,8 @@ namespace SLAT {
                     region_stack.push({c, b, e, fc, fb , fe, r3});
                 }
             }
-            if (counter > stats.max_successful_integration) {
 #pragma omp critical
+            if (counter > stats.max_successful_integration) {
                 stats.max_successful_integration = counter;
             }
             if (success) {
-- 
2.43.0


From d838abee202b692c81fcadfbed0b640b01d4a5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:38 +0000
Subject: [PATCH 12/48] fix: contexts in nested and differently sized parallel
 regions

The list of threads was sized once, so a later region with more threads accessed
elements past its end; threads of an active region nested in an inactive one
shared a context; and the lock was used before it was initialised.
---
 src/context.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/context.cpp b/src/context.cpp
index 2c5e880..ac7de1c 100644
--- a/src/context.cpp
+++ b/src/context.cpp
@@ -23,13 +23,14 @@ namespace SLAT {
 
      std::shared_ptr<Context> Context::LockContext()
      {
-        omp_set_lock(&Context::lock);
+        // GetInstance() initialises the lock, so has to come first:
         std::shared_ptr<Context> instance = GetInstance();
+        omp_set_lock(&Context::lock);
         
-        if (omp_get_active_level() > 0) {
-            for (int i=0; i <= omp_get_active_level(); i++) {
+        if (omp_get_level() > 0) {
+            for (int i=0; i <= omp_get_level(); i++) {
                 int thread_num = omp_get_ancestor_thread_num(i);
-                if (instance->threads.size() == 0) {
+                if (instance->threads.size() < (size_t)omp_get_team_size(i)) {
                     instance->threads.resize(omp_get_team_size(i));
                 }
                 if (instance->threads[thread_num] == NULL) {
@@ -170,9 +171,9 @@ namespace SLAT {
             result << separator;
         }
 
-        for (int i=0; i <= omp_get_active_level(); i++) {
+        for (int i=0; i <= omp_get_level(); i++) {
             separator = separator + "/";
-            if (instance->threads.size() == 0) break;
+            if (instance->threads.size() <= (size_t)omp_get_ancestor_thread_num(i)) break;
             instance = instance->threads[omp_get_ancestor_thread_num(i)];
             if (instance == NULL) break;
             
-- 
2.43.0


From 352b758732cb6998e904b6faa5cc0ed84e26977f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:19 +0000
Subject: [PATCH 13/48] fix: the probability of demolition is never negative

Where the curves for collapse and demolition cross, the probability of demolition
was negative, and the weights used for a structure's total cost added up to more
than one.
---
 src/relationships.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/relationships.h b/src/relationships.h
index d042b81..0e735df 100644
--- a/src/relationships.h
+++ b/src/relationships.h
@@ -18,6 +18,7 @@
 #include "replaceable.h"
 #include "caching.h"
 #include "lognormaldist.h"
+#include <cmath>
 #include <iostream>
 
 namespace SLAT {
@@ -121,7 +122,9 @@ namespace SLAT {
 
         double pDemolition(double im) {
             if (demolition) {
-                return demolition->p_at_most(im) - pCollapse(im);
+                // Where collapse is more likely than demolition or collapse (that
+                // is, the curves cross), nothing is left to be demolished.
+                return std::fmax(demolition->p_at_most(im) - pCollapse(im), 0.0);
             } else {
                 return 0;
             }
-- 
2.43.0


From a6ce1a44cf5dc55a48b3ab3d87685666a5b62b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:39 +0000
Subject: [PATCH 14/48] fix: creating the first caches on several threads at
 once

---
 src/caching.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/caching.cpp b/src/caching.cpp
index 36cb2ff..4604839 100644
--- a/src/caching.cpp
+++ b/src/caching.cpp
@@ -35,10 +35,13 @@ namespace SLAT {
             void Init_Caching(void)
             {
                 static bool first_call = true;
-                if (first_call) {
-                    omp_init_lock(&lock);
-                };
-                first_call = false;
+#pragma omp critical (init_caching)
+                {
+                    if (first_call) {
+                        omp_init_lock(&lock);
+                    };
+                    first_call = false;
+                }
             }
 
             /**
-- 
2.43.0


From 8739abfd0183671cf91259038ac11bafc90dff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:58 +0000
Subject: [PATCH 15/48] fix: functions given by median or log-mean with a
 standard deviation recurse endlessly

The deviation's logarithm needs the mean, which needs the deviation's
logarithm. Work from the median instead.
---
 src/functions.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/functions.cpp b/src/functions.cpp
index 1441c16..886dd41 100644
--- a/src/functions.cpp
+++ b/src/functions.cpp
@@ -351,11 +351,19 @@ namespace SLAT {
             break;
         case SIGMA_X:
             sigma_X = [this] (double x) -> double { return this->sigma_function->ValueAt(x); };
-            sigma_lnX = [this] (double x) -> double { 
-                double sd = this->sigma_X(x);
-                double mean = this->mean_X(x);
-                return sqrt(log(1.0 + (sd * sd)/(mean * mean))); 
-            };
+            if (m_type == MEAN_X) {
+                sigma_lnX = [this] (double x) -> double { 
+                    double sd = this->sigma_X(x);
+                    double mean = this->mean_X(x);
+                    return sqrt(log(1.0 + (sd * sd)/(mean * mean))); 
+                };
+            } else {
+                // The mean isn't known until sigma_lnX is; work from the median.
+                sigma_lnX = [this] (double x) -> double { 
+                    double r = this->sigma_X(x) / this->median_X(x);
+                    return sqrt(log((1.0 + sqrt(1.0 + 4.0 * r * r)) / 2.0)); 
+                };
+            }
             break;
         case SIGMA_INVALID:
         default:
-- 
2.43.0


From 8c5b54b10664cfb52fd87002f4319f3ebf4fdb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 16/48] fix: a demand without a name is not registered

---
 src/pyslat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 618a1fc..592d791 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -730,7 +730,7 @@ class edp:
             old = edp.lookup(id)
             if old:
                 edp.defs[id]._func.replace(self._func)
-        edp.defs[id] = self
+            edp.defs[id] = self
 
     ## Return the edp object with the corresponding id.
     #  @param id The identifier provided to the constructor of a edp object.
-- 
2.43.0


From 0487317a3a9724b55df5c3417929d9c1fe773a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:38 +0000
Subject: [PATCH 17/48] fix: a probabilistic function of an invalid type is not
 registered

---
 src/pyslat.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 592d791..5f690b4 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -467,7 +467,9 @@ class probfn:
     # indicating the attribute the second element--a deterministic
     # function--describes.
     def __init__(self, id, type, mu_func, sigma_func):
-        
+        if not(type == 'lognormal'):
+            raise ValueError("Invalid type '{}' for probfn '{}'.".format(type, id))
+
         self._id = id
         self._type = type
         self._mu_func = mu_func
@@ -478,10 +480,6 @@ class probfn:
                                                   sigma_func[0]) 
         if id != None:
             probfn.defs[id] = self
-        
-        if not(type == 'lognormal'):
-            raise ValueError("Invalid type '" + type + "' for probfn '" + id + "'.")
-
     
     ## Return the probfn object with the corresponding id.
     # @param id The identifier provided to the constructor of a probfn object.
-- 
2.43.0


From 896e6193ffea87af7ff5108ea6632d2bd45bead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:59 +0000
Subject: [PATCH 18/48] fix: logging to standard error that was enabled again
 can be disabled again

---
 src/pyslatcore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index daaf4d1..417a869 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -31,7 +31,7 @@ void LogToStdErr(bool flag)
 {
     if (flag) {
         if (std_error_sink == NULL) {
-            boost::shared_ptr<logging::sinks::sink> k = logging::add_console_log(std::cerr);
+            std_error_sink = logging::add_console_log(std::cerr);
         }
     } else {
         if (std_error_sink != NULL) {
-- 
2.43.0


From 0cf79fa7809afadb088f0cb07d47207c7549cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:30 +0000
Subject: [PATCH 19/48] fix: log messages stay silent when every destination is
 disabled

---
 src/pyslatcore.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 417a869..7251241 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -25,6 +25,7 @@ void SetLogFile(std::string path)
         logging::core::get()->remove_sink(file_sink);
     } 
     file_sink = logging::add_file_log(path);
+    logging::core::get()->set_logging_enabled(true);
 }
 
 void LogToStdErr(bool flag)
@@ -39,6 +40,8 @@ void LogToStdErr(bool flag)
             std_error_sink = NULL;
         }
     }
+    // Without any sink, messages would go to the library's default one:
+    logging::core::get()->set_logging_enabled(std_error_sink != NULL || file_sink != NULL);
 }
 
 
-- 
2.43.0


From 5143d1e53d8e4856fa94874612fdf5f8c8980594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:21 +0000
Subject: [PATCH 20/48] fix: probabilistic functions can be evaluated from
 Python

---
 src/pyslatcore.i | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 1718d62..8760b30 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -48,6 +48,17 @@ public:
 DeterministicFn *factory3(FUNCTION_TYPE t, std::vector<double>x, std::vector<double> y);
 DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params);
 
+class ProbabilisticFn {
+public:
+    double P_exceedence(double x, double min_y);
+    double X_at_exceedence(double x, double p);
+    double Mean(double x);
+    double MeanLn(double x);
+    double Median(double x);
+    double SD_ln(double x);
+    double SD(double x);
+};
+
 ProbabilisticFn *MakeLogNormalProbabilisticFn(const DeterministicFn &mu_function,
                                                   LOGNORMAL_MU_TYPE mu_type,
                                                   const DeterministicFn &sigma_function,
-- 
2.43.0


From 0f6b0b49759405f8c435d162d57ca9fcff15da8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:45 +0000
Subject: [PATCH 21/48] fix: after a redefinition, the scripting layer's
 groups, demands, structures and recorders go by the new object

---
 src/pyslat.py | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 5f690b4..3421473 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -307,6 +307,16 @@ def LogToStdErr(flag):
 def SetLogFile(path):
     return pyslatcore.SetLogFile(path)
 
+## Find what an object has been redefined as.
+# Defining an object under a name already in use replaces the earlier object;
+# whatever has been built on the earlier object is then built on the new one.
+# @param obj An object, or None
+# @return The object replacing 'obj', or 'obj' itself if it has not been redefined.
+def latest(obj):
+    while getattr(obj, '_successor', None) is not None:
+        obj = obj._successor
+    return obj
+
 ## Represents a log normal distribution.
 #
 # Wraps a pyslatcore::LogNormalDist.
@@ -589,6 +599,7 @@ class im:
             old = im.lookup(id)
             if old:
                 im.defs[id]._func.replace(self._func)
+                old._successor = self
             im.defs[id] = self
 
     ## Return the 'max' value, which is used by the GUI as a hint
@@ -728,6 +739,7 @@ class edp:
             old = edp.lookup(id)
             if old:
                 edp.defs[id]._func.replace(self._func)
+                old._successor = self
             edp.defs[id] = self
 
     ## Return the edp object with the corresponding id.
@@ -757,7 +769,7 @@ class edp:
 
     ## Return the IM driving the EDP.
     def get_IM(self):
-        return self._im
+        return latest(self._im)
 
     ## Return the probabilitic function describing the EDP|IM relationship.
     def function(self):
@@ -869,6 +881,7 @@ class fragfn:
             old = fragfn.lookup(id)
             if old:
                 fragfn.defs[id]._func.replace(self._func)
+                old._successor = self
             fragfn.defs[id] = self
             
 
@@ -983,6 +996,7 @@ class lossfn:
             old = lossfn.lookup(id)
             if old:
                 lossfn.defs[id]._func.replace(self._func)
+                old._successor = self
             lossfn.defs[id] = self
             
             
@@ -1123,6 +1137,7 @@ class compgroup:
             old = compgroup.lookup(id)
             if old:
                 compgroup.defs[id]._func.replace(self._func)
+                old._successor = self
             compgroup.defs[id] = self
 
     ## Return the compgroup object with the corresponding id.
@@ -1138,15 +1153,15 @@ class compgroup:
 
     ## Return the im driving the EDP affecting the components.
     def get_IM(self):
-        return self._edp.get_IM()
+        return latest(self._edp).get_IM()
 
     ## Return the fragility function.
     def fragfn(self):
-        return self._frag
+        return latest(self._frag)
 
     ## Return the number of damage states.
     def size(self):
-        return self._frag.size()
+        return self.fragfn().size()
         
     ## Return the underlying pyslatcore::CompGroup.
     def function(self):
@@ -1278,7 +1293,7 @@ class structure:
 
     ## Return the im connected to the structure.
     def get_IM(self):
-        return self._im
+        return latest(self._im)
 
     ## Return the pdf|im for the structure:
     def pdf(self, im):
@@ -1454,11 +1469,9 @@ class recorder:
            and at==None:
             raise ValueError('MUST PROVIDE ''AT'' CLAUSE')
 
-        if (type =='dsedp' or type == 'dsim') and columns == None:
-            columns = []
-            for i in range(function.size()):
-                columns.append("DS{}".format(i + 1))
-            columns.append("E(DS)")
+        self._all_states = (type =='dsedp' or type == 'dsim') and columns == None
+        if self._all_states:
+            columns = self._damage_states()
         elif (type == 'probfn' or type == 'edpim') and columns == None:
             columns = ['mean_ln_x', 'sd_ln_x']
         elif (type == 'costedp' or type =='costim' \
@@ -1472,6 +1485,14 @@ class recorder:
             
         print(self)
 
+    ## Return a column for each of the component group's damage states
+    def _damage_states(self):
+        columns = []
+        for i in range(self._function.size()):
+            columns.append("DS{}".format(i + 1))
+        columns.append("E(DS)")
+        return columns
+
     ## Return the recorder object with the corresponding id.
     #  @param id The identifier provided to the constructor of a structure object.
     #  @return The recorder with the corresponding identifier.
@@ -1679,6 +1700,10 @@ class recorder:
     #  as required.
     def run(self):
         #print("RUN {}".format(self))
+        # The object to record may have been redefined:
+        self._function = latest(self._function)
+        if self._all_states:
+            self._columns = self._damage_states()
         destination = full_output_path(self._options.get('filename'))
         if destination != None:
             if self._options.get('append'):
-- 
2.43.0


From c3b5711bf60731a720d9180ea4e3380dfe4409ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 22/48] fix: a component group tied to another intensity
 measure is refused with a ValueError, and not added

---
 src/pyslat.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 3421473..313cde7 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1309,14 +1309,13 @@ class structure:
     #
     # @todo Test that IM mis-matches are handled correctly.
     def AddCompGroup(self, group):
-        self._structure.AddCompGroup(group.function())
         if self._im == None:
             self._im = group.get_IM()
-        else:
-            if not(self._im == group.get_IM()):
-                raise ValueError("Component group tied to wrong IM " +
-                                 "(expected " + self._im + "; got " + 
-                                 group.get_IM() << ")");
+        elif not(self.get_IM() == group.get_IM()):
+            raise ValueError("Component group tied to wrong IM " +
+                             "(expected {}; got {})".format(
+                                 self.get_IM(), group.get_IM()))
+        self._structure.AddCompGroup(group.function())
 
     ## Remove a component group from the structure.
     #
-- 
2.43.0


From c2bbfcb95458e99dae1bd69899b8904b0a52ad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 23/48] fix: edp.MeanLn, Median and SD accept lists of
 intensities

---
 src/pyslat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 313cde7..a678b53 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -788,7 +788,7 @@ class edp:
     #  @param x The IM value at which to calculate mean(ln(x)).
     def MeanLn(self, x):
         if type(x) == list:
-            result = list(self._func.MeanLn(x))
+            result = list(self._func.bulk_MeanLn(x))
         else:
             result = self._func.MeanLn(x)
         return result
@@ -797,7 +797,7 @@ class edp:
     #  @param x The IM value at which to calculate median(x).
     def Median(self, x):
         if type(x) == list:
-            result = list(self._func.Median(x))
+            result = list(self._func.bulk_Median(x))
         else:
             result = self._func.Median(x)
         return result
@@ -815,7 +815,7 @@ class edp:
     #  @param x The IM value at which to calculate standard deviation(x).
     def SD(self, x):
         if type(x) == list:
-            result = list(self._func.SD(x))
+            result = list(self._func.bulk_SD(x))
         else:
             result = self._func.SD(x)
         return result
-- 
2.43.0


From 3959ef59efc719b343169cc4730b070120077a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 24/48] fix: compgroup.E_cost no longer calls a function the
 library lacks

---
 src/pyslat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index a678b53..3f721fa 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1192,7 +1192,7 @@ class compgroup:
     # @param t Number of years
     # @param l Discount rate.
     def E_cost(self, t, l):
-        return self._func.E_cost(t, l)
+        return (1.0 - math.exp(-l * t)) / l * self.E_annual_cost()
 
     ## Return the mean(annual cost) 
     def E_annual_cost(self):
-- 
2.43.0


From ed74044f7f69b2ac61f6efc1fec27ffff9e1e0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 25/48] fix: a demand made from one function has a plot_max too

---
 src/pyslat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 3f721fa..84461b6 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -734,7 +734,7 @@ class edp:
             self._func = MakeCompoundEDP(im.function(), fn.function(), 
                                          fn2.function(), "{}".format(id))
 
-            self._plot_max = None
+        self._plot_max = None
         if id != None:
             old = edp.lookup(id)
             if old:
-- 
2.43.0


From 53406d9ea7ee59830d93b970ef9bed1643b7b02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:02 +0000
Subject: [PATCH 26/48] fix: a compound demand can be made from two
 probabilistic functions, as documented

---
 src/pyslatcore.cpp | 8 ++++++++
 src/pyslatcore.h   | 2 ++
 src/pyslatcore.i   | 1 +
 3 files changed, 11 insertions(+)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 7251241..cb6b267 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -530,6 +530,14 @@ EDP *MakeCompoundEDP(IM base_rate, EDP x_edp, EDP y_edp, std::string name)
     return result;
 }
 
+EDP *MakeCompoundEDP(IM base_rate, ProbabilisticFn x_rate, ProbabilisticFn y_rate, std::string name)
+{
+    return new EDP(std::make_shared<SLAT::CompoundEDP>(base_rate.relationship,
+                                                       x_rate.function,
+                                                       y_rate.function,
+                                                       name));
+}
+
 //     class FragilityFnWrapper;
 //     class LossFnWrapper;
     
diff --git a/src/pyslatcore.h b/src/pyslatcore.h
index 097c289..c0dd152 100644
--- a/src/pyslatcore.h
+++ b/src/pyslatcore.h
@@ -54,6 +54,7 @@ public:
 private:
     std::shared_ptr<SLAT::ProbabilisticFn> function;
     friend EDP *MakeEDP(IM base_wrate, ProbabilisticFn dependent_rate, std::string name);
+    friend EDP *MakeCompoundEDP(IM base_rate, ProbabilisticFn x_rate, ProbabilisticFn y_rate, std::string name);
 
 };
 
@@ -163,6 +164,7 @@ public:
 
 EDP *MakeEDP(IM base_wrate, ProbabilisticFn dependent_rate, std::string name);
 EDP *MakeCompoundEDP(IM base_rate, EDP x_edp, EDP y_epd, std::string name);
+EDP *MakeCompoundEDP(IM base_rate, ProbabilisticFn x_rate, ProbabilisticFn y_rate, std::string name);
 
 class FragilityFn {
 public:
diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index 8760b30..e48ed4c 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -125,6 +125,7 @@ public:
 
 EDP *MakeEDP(IM base_wrate, ProbabilisticFn dependent_rate, std::string name);
 EDP *MakeCompoundEDP(IM base_rate, EDP x_edp, EDP y_epd, std::string name);
+EDP *MakeCompoundEDP(IM base_rate, ProbabilisticFn x_rate, ProbabilisticFn y_rate, std::string name);
 
 class FragilityFn {
 public:
-- 
2.43.0


From b2070b26c2d757cbfdabce713e59ccb1ebc4db8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:12 +0000
Subject: [PATCH 27/48] fix: a component group without a delay function can be
 asked for delays

---
 src/pyslat.py      | 5 ++++-
 src/pyslatcore.cpp | 9 +++++++++
 src/pyslatcore.h   | 4 ++++
 src/pyslatcore.i   | 3 +++
 4 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 84461b6..c4cc9f3 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -230,7 +230,10 @@ def MakeBiLevelLossFn(parameters):
 # @param name  The name of the component group
 def MakeCompGroup(edp, frag_fn, cost_fn, delay_fn, count, cost_adjustment_factor, delay_adjustment_factor, name):
     if (delay_fn == None):
-        delay_fn = MakeSimpleLossFn([DefaultLogNormalDist()])
+        return pyslatcore.MakeCompGroup(edp, frag_fn, cost_fn, count,
+                                        cost_adjustment_factor,
+                                        delay_adjustment_factor,
+                                        name)
     return pyslatcore.MakeCompGroup(edp, frag_fn, cost_fn, delay_fn, count, 
                                     cost_adjustment_factor,
                                     delay_adjustment_factor,
diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index cb6b267..36296aa 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -741,6 +741,15 @@ CompGroup *MakeCompGroup(EDP edp, FragilityFn frag_fn, LossFn cost_fn, LossFn de
                              delay_adjustment_factor,
                              name));
 }
+
+CompGroup *MakeCompGroup(EDP edp, FragilityFn frag_fn, LossFn cost_fn, int count, 
+                         double cost_adjustment_factor,
+                         double delay_adjustment_factor,
+                         std::string name)
+{
+    return MakeCompGroup(edp, frag_fn, cost_fn, LossFn(NULL), count,
+                         cost_adjustment_factor, delay_adjustment_factor, name);
+}
     
 std::vector<double> CompGroup::pDS_IM(double im)
 {
diff --git a/src/pyslatcore.h b/src/pyslatcore.h
index c0dd152..5a7c80f 100644
--- a/src/pyslatcore.h
+++ b/src/pyslatcore.h
@@ -231,6 +231,10 @@ CompGroup *MakeCompGroup(EDP edp, FragilityFn frag_fn, LossFn cost_fn, LossFn de
                          double cost_adjustment_factor,
                          double delay_adjustment_factor,
                          std::string name);
+CompGroup *MakeCompGroup(EDP edp, FragilityFn frag_fn, LossFn cost_fn, int count, 
+                         double cost_adjustment_factor,
+                         double delay_adjustment_factor,
+                         std::string name);
 
 class Structure {
 public:
diff --git a/src/pyslatcore.i b/src/pyslatcore.i
index e48ed4c..b68400d 100644
--- a/src/pyslatcore.i
+++ b/src/pyslatcore.i
@@ -187,6 +187,9 @@ private:
 CompGroup *MakeCompGroup(EDP edp, FragilityFn frag_fn, LossFn cost_fn, LossFn delay_fn, int count, 
                          double cost_adjustment_factor, double delay_adjustment_factor,
                          std::string name);
+CompGroup *MakeCompGroup(EDP edp, FragilityFn frag_fn, LossFn cost_fn, int count, 
+                         double cost_adjustment_factor, double delay_adjustment_factor,
+                         std::string name);
 
 class Structure {
 public:
-- 
2.43.0


From 02445d55d0aef169f2a48ad6b1f890a5a5c3ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:08 +0000
Subject: [PATCH 28/48] fix: the parameters of hyperbolic functions are taken
 in the documented order (v_asy, IM_asy, alpha)

---
 src/pyslatcore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyslatcore.cpp b/src/pyslatcore.cpp
index 36296aa..3da11d5 100644
--- a/src/pyslatcore.cpp
+++ b/src/pyslatcore.cpp
@@ -157,9 +157,9 @@ DeterministicFn *factory2(FUNCTION_TYPE t, std::vector<double> params)
     case NLH:
     {
         // std::cout << "[NLH]" << std::endl;
-        double alpha = params[0];
+        double v_asy = params[0];
         double IM_asy = params[1];
-        double v_asy = params[2];
+        double alpha = params[2];
         result = std::make_shared<SLAT::NonLinearHyperbolicLaw>(v_asy, IM_asy, alpha);
         break;
     }
-- 
2.43.0


From 59a05a0e84b5168519a5b3fcbe1934134fbaabde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:06 +0000
Subject: [PATCH 29/48] fix: recorders accept an array of values to record at

---
 src/pyslat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index c4cc9f3..7e7bde4 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1463,12 +1463,12 @@ class recorder:
         self._function = function
         self._options = options
         self._at = at
-        if at != None:
+        if at is not None:
             self._at = list(at)
 
         if not type == 'dsrate' and not type == 'collrate' \
            and not type == 'structcost' \
-           and at==None:
+           and at is None:
             raise ValueError('MUST PROVIDE ''AT'' CLAUSE')
 
         self._all_states = (type =='dsedp' or type == 'dsim') and columns == None
@@ -1748,7 +1748,7 @@ class StructcostRecorder(recorder):
         print("columns: ", columns)
         print("at: ", at)
         if  (not options['structcost-type'] == 'annual') \
-            and at==None:
+            and at is None:
             raise ValueError('MUST PROVIDE ''AT'' CLAUSE')
 
         if columns == None or len(columns) == 0:
-- 
2.43.0


From ef8c36f99fc9124c40d8c2d8128cacd6c0ad13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:07 +0000
Subject: [PATCH 30/48] fix: recorders accept integers among the values to
 record at

---
 src/pyslat.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 7e7bde4..508f060 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1525,6 +1525,8 @@ class recorder:
     # redirect it as necessary.
     def generate_output(self):
         #print(self)
+        # Values are formatted with a precision, which integers don't support:
+        at = self._at and [float(x) for x in self._at]
         if self._type == 'dsrate':
             rates = self._function.Rate()
             line1 = ""
@@ -1574,28 +1576,28 @@ class recorder:
 
 
             if self._type == 'imrate':
-                yvals = self._function.getlambda(self._at)
-                for x, y in zip(self._at, yvals):
+                yvals = self._function.getlambda(at)
+                for x, y in zip(at, yvals):
                     print("{:>15.6}{:>15.6}".format(x, y))
             elif self._type == 'collapse':
-                yvals_demo = self._function.pDemolition(self._at)
-                yvals_coll = self._function.pCollapse(self._at)
-                for x, demo, coll in zip(self._at, yvals_demo, yvals_coll):
+                yvals_demo = self._function.pDemolition(at)
+                yvals_coll = self._function.pCollapse(at)
+                for x, demo, coll in zip(at, yvals_demo, yvals_coll):
                     print("{:>15.6}{:>15.6}{:>15.6}".format(x, demo, coll))
             elif self._type == 'edpim':
                 yvals = []
                 for y in self._columns:
                     if y == 'mean_x':
-                        yvals.append(self._function.Mean(self._at))
+                        yvals.append(self._function.Mean(at))
                     elif y == 'mean_ln_x':
-                        yvals.append(self._function.MeanLn(self._at))
+                        yvals.append(self._function.MeanLn(at))
                     elif y == 'median_x':
-                        yvals.append(self._function.Median(self._at))
+                        yvals.append(self._function.Median(at))
                     elif y == 'sd_ln_x':
-                        yvals.append(self._function.SD_ln(self._at))
+                        yvals.append(self._function.SD_ln(at))
                     elif y == 'sd_x':
-                        yvals.append(self._function.SD(self._at))
-                for x, y in zip(self._at, map(list, zip(*yvals))):
+                        yvals.append(self._function.SD(at))
+                for x, y in zip(at, map(list, zip(*yvals))):
                     line = "{:>15.6}".format(x)
                     for yval in y:
                         line = "{}{:>15.6}".format(line, yval)
@@ -1605,7 +1607,7 @@ class recorder:
 #                print(self._columns)
 #                raise ValueError("EDP: " + self._type)
             else:
-                for x in self._at:
+                for x in at:
                     line = "{:>15.6}".format(x)
                     if self._type == 'dsedp':
                         yvals = self._function.fragfn().pExceeded(x)
@@ -1804,7 +1806,7 @@ class StructcostRecorder(recorder):
                     line = "{}{:>15}".format(line, "{}.{}".format(c, y))
             print(line)
 
-            for x in self._at:
+            for x in map(float, self._at):
                 line = "{:>15.6}".format(x)
                 for c in categories:
                     dists = []
@@ -1852,7 +1854,7 @@ class StructcostRecorder(recorder):
                     line = "{}{:>20}".format(line, "{}.{}".format(c, y))
             print(line)
 
-            for x in self._at:
+            for x in map(float, self._at):
                 line = "{:>15.6}".format(x)
                 for c in categories:
                     dists = []
@@ -1893,7 +1895,7 @@ class StructcostRecorder(recorder):
                     line = "{}{:>15}".format(line, "{}.{}".format(f, y))
             print(line)
 
-            for x in self._at:
+            for x in map(float, self._at):
                 line = "{:>15.6}".format(x)
                 for f in fates:
                     if f == 'repair':
@@ -1960,7 +1962,7 @@ class PdfRecorder(recorder):
             divisor = 1.0
 
         for i in range(len(self._at)):
-            print("{:>15.6}{:>15.6}".format(self._at[i], results[i]/divisor))
+            print("{:>15.6}{:>15.6}".format(float(self._at[i]), results[i]/divisor))
         
 ## Factory method for recorders.
 # Constructs an instance of a recorder or appropriate subclass.
-- 
2.43.0


From af4d3c5710ae581c7676394ea28ca6c7774aedbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:07 +0000
Subject: [PATCH 31/48] fix: a recorder without a file prints to the terminal

---
 src/pyslat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 508f060..c6c3051 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1708,8 +1708,9 @@ class recorder:
         self._function = latest(self._function)
         if self._all_states:
             self._columns = self._damage_states()
-        destination = full_output_path(self._options.get('filename'))
+        destination = self._options.get('filename')
         if destination != None:
+            destination = full_output_path(destination)
             if self._options.get('append'):
                 f = open(destination, "a")
             else:
-- 
2.43.0


From 0b2f6fff3c0a41e1f4913662eb9e7e964572a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:07 +0000
Subject: [PATCH 32/48] fix: deagg recorders called a method which doesn't
 exist

---
 src/pyslat.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index c6c3051..ded47f3 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1623,11 +1623,11 @@ class recorder:
                         loss_rate = self._function.lambda_cost(x)
                         line = "{}{:>15.6}".format(line, loss_rate)
                     elif self._type == 'deagg':
-                        values = self._function.DeaggregatedLoss(x)
+                        values = self._function.DeaggregatedCost(x)
                         nc = values[0]
                         c = values[1]
                         line = "{}{:>15.6}{:>15.6}{:>15.6}{:>15.6}".format(
-                            x, 
+                            line,
                             nc.get_mean_X(), nc.get_sigma_lnX(), 
                             c.get_mean_X(), c.get_sigma_lnX())
                     elif not self._columns == None:
-- 
2.43.0


From 83f83aabdfc0f5268473902e1963202bd4612370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:07 +0000
Subject: [PATCH 33/48] fix: edpim recorders left out columns given as
 probabilities

---
 src/pyslat.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyslat.py b/src/pyslat.py
index ded47f3..eeb9751 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1597,6 +1597,8 @@ class recorder:
                         yvals.append(self._function.SD_ln(at))
                     elif y == 'sd_x':
                         yvals.append(self._function.SD(at))
+                    elif isinstance(y, numbers.Number):
+                        yvals.append([self._function.X_at_exceedence(x, y) for x in at])
                 for x, y in zip(at, map(list, zip(*yvals))):
                     line = "{:>15.6}".format(x)
                     for yval in y:
-- 
2.43.0


From 6e080635d96951fb2215bffe353ac88cdfd3d114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:07 +0000
Subject: [PATCH 34/48] fix: structcost recorders didn't recognise mean_ln_x
 and median_x

---
 src/pyslat.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index eeb9751..6922801 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1824,9 +1824,9 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y== 'mean_ln_x':
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y== 'median_x':
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
@@ -1872,9 +1872,9 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y== 'mean_ln_x':
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y== 'median_x':
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
@@ -1913,9 +1913,9 @@ class StructcostRecorder(recorder):
                     for y in self._columns:
                         if y == 'mean_x':
                             yval = dist.mean()
-                        elif y== 'mean_ln':
+                        elif y== 'mean_ln_x':
                             yval = dist.mean_ln()
-                        elif y== 'median':
+                        elif y== 'median_x':
                             yval = dist.median()
                         elif y == 'sd_ln_x':
                             yval = dist.sd_ln()
-- 
2.43.0


From 8d2685f19f38d87e7dff38b76af555447843c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:07 +0000
Subject: [PATCH 35/48] fix: pdf recorders cut the intensity measure's name
 short

---
 src/pyslat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 6922801..877bcd2 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1950,7 +1950,7 @@ class PdfRecorder(recorder):
     ## Print the IM identifier and pdf
     #  including column headers.
     def generate_output(self):
-        print("{:>15.6}{:>15.6}".format(self._function.get_IM().id(), "pdf"))
+        print("{:>15}{:>15}".format(self._function.get_IM().id(), "pdf"))
         results = []
         max_pdf = 0
         for im in self._at:
-- 
2.43.0


From 6d7528011fa58004f267d23778cbf24f08b7c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:27 +0000
Subject: [PATCH 36/48] fix: dsedp and dsim recorders report the damage states
 their columns name

---
 src/pyslat.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 877bcd2..6fe3b9d 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1495,6 +1495,14 @@ class recorder:
         columns.append("E(DS)")
         return columns
 
+    ## Select what the columns ask for: damage states, by number, or all of them
+    #  and their sum.
+    def _select_states(self, values):
+        if self._all_states:
+            return list(values) + [sum(values)]
+        else:
+            return [values[int(column) - 1] for column in self._columns]
+
     ## Return the recorder object with the corresponding id.
     #  @param id The identifier provided to the constructor of a structure object.
     #  @return The recorder with the corresponding identifier.
@@ -1613,14 +1621,12 @@ class recorder:
                     line = "{:>15.6}".format(x)
                     if self._type == 'dsedp':
                         yvals = self._function.fragfn().pExceeded(x)
-                        for y in yvals:
+                        for y in self._select_states(yvals):
                             line = "{}{:>15.6}".format(line, y)
-                        line = "{}{:>15.6}".format(line, sum(yvals))
                     elif self._type == 'dsim':
                         yvals = self._function.pDS_IM(x)
-                        for y in yvals:
+                        for y in self._select_states(yvals):
                             line = "{}{:>15.6}".format(line, y)
-                        line = "{}{:>15.6}".format(line, sum(yvals))
                     elif self._type == 'costrate':
                         loss_rate = self._function.lambda_cost(x)
                         line = "{}{:>15.6}".format(line, loss_rate)
-- 
2.43.0


From 9806379b09a7ad42649db1d0e6a8c93b23b60d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:17 +0000
Subject: [PATCH 37/48] fix: headings of structcost recorders no longer run
 together

---
 src/pyslat.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 6fe3b9d..f1a4035 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1812,7 +1812,7 @@ class StructcostRecorder(recorder):
             line = "{:>15}".format(x_label)
             for c in categories:
                 for y in y_label:
-                    line = "{}{:>15}".format(line, "{}.{}".format(c, y))
+                    line = "{} {:>14}".format(line, "{}.{}".format(c, y))
             print(line)
 
             for x in map(float, self._at):
@@ -1860,7 +1860,7 @@ class StructcostRecorder(recorder):
             line = "{:>15}".format(x_label)
             for c in categories:
                 for y in y_label:
-                    line = "{}{:>20}".format(line, "{}.{}".format(c, y))
+                    line = "{} {:>19}".format(line, "{}.{}".format(c, y))
             print(line)
 
             for x in map(float, self._at):
@@ -1901,7 +1901,7 @@ class StructcostRecorder(recorder):
             line = "{:>15}".format(x_label)
             for f in fates:
                 for y in y_label:
-                    line = "{}{:>15}".format(line, "{}.{}".format(f, y))
+                    line = "{} {:>14}".format(line, "{}.{}".format(f, y))
             print(line)
 
             for x in map(float, self._at):
-- 
2.43.0


From 1c92a4fba4c343f96fe3f989aad079589a2afecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 38/48] fix: linear and loglog functions can be defined in
 scripts

---
 src/SlatInterpreter.py | 19 ++++++++++++++-----
 src/slatLexer.g4       |  2 +-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index f9b4b35..c4a2d12 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -88,7 +88,7 @@ class SlatInterpreter(slatParserListener):
             type = 'loglog'
             fntype = pyslat.FUNCTION_TYPE.LOGLOG
         elif ctx.linear_args():
-            type = 'lin'
+            type = 'linear'
             fntype = pyslat.FUNCTION_TYPE.LIN
         else:
             raise ValueError("Unhandled DETFN type.")
@@ -96,10 +96,7 @@ class SlatInterpreter(slatParserListener):
 
         id = ctx.ID().getText()
         print(type)
-        if type == 'loglog' or type == 'lin':
-            pyslat.detfn(id, type, value[0], value[1])
-        else:
-            pyslat.detfn(id, type, value)
+        pyslat.detfn(id, type, value)
 
     ## Enter a parse tree produced by slatParser#loglog
     def enterLoglog_args(self, ctx:slatParser.Loglog_argsContext):
@@ -107,6 +104,18 @@ class SlatInterpreter(slatParserListener):
 
     ## Exit a parse tree produced by slatParser#loglog
     def exitLoglog_args(self, ctx:slatParser.Loglog_argsContext):
+        self._separate_pairs()
+
+    ## Enter a parse tree produced by slatParser#linear
+    def enterLinear_args(self, ctx:slatParser.Linear_argsContext):
+        self._push_stack()
+
+    ## Exit a parse tree produced by slatParser#linear
+    def exitLinear_args(self, ctx:slatParser.Linear_argsContext):
+        self._separate_pairs()
+
+    ## Replace the (x, y) pairs of a table with a list of x and a list of y values.
+    def _separate_pairs(self):
         values = self._pop_stack()
         # Put x and y values into separate lists:
         x_values = []
diff --git a/src/slatLexer.g4 b/src/slatLexer.g4
index 2ceee88..21cc4f0 100644
--- a/src/slatLexer.g4
+++ b/src/slatLexer.g4
@@ -86,7 +86,7 @@ STRING : SINGLE_QUOTED_STRING | DOUBLE_QUOTED_STRING ;
 
 HYPERBOLIC: 'hyperbolic';
 POWERLAW: 'powerlaw';
-LOGLOG: ' loglog';
+LOGLOG: 'loglog';
 LINEAR: 'linear';
 LINFLAG: '--linear';
 LOGFLAG: '--log';
-- 
2.43.0


From dd677b8bebfa83e266d51431f097d1a6fcab14f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 39/48] fix: the parameters of lognormal distributions default
 to those of the logarithm in scripts, as documented

---
 src/SlatInterpreter.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index c4a2d12..1de68f9 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -289,8 +289,7 @@ class SlatInterpreter(slatParserListener):
             else:
                 raise ValueError("Unhandled Lognormal option")
         else:
-            mu = None
-
+            mu = pyslat.LOGNORMAL_MU_TYPE.MEAN_LN_X
 
         if ctx.sd_option():
             if ctx.sd_option().SD_X():
@@ -302,7 +301,7 @@ class SlatInterpreter(slatParserListener):
             else:
                 raise ValueError("Unhandled Lognormal option")
         else:
-            sd = None
+            sd = pyslat.LOGNORMAL_SIGMA_TYPE.SD_LN_X
             
         self._stack.append({"mu": mu, "sd":sd})
 
@@ -588,8 +587,15 @@ class SlatInterpreter(slatParserListener):
                 
             elif ctx.ANNUAL_FLAG():
                 options['structcost-type'] = 'annual'
-                cols = []
-                for key, value in self._stack.pop().items():
+                flags = ctx.lognormal_options()
+                given = self._stack.pop()
+                if not flags.mu_option():
+                    del given['mu']
+                if not flags.sd_option():
+                    del given['sd']
+                if given or cols is None:
+                    cols = []
+                for key, value in given.items():
                     if key == 'mu':
                         if value == pyslat.LOGNORMAL_MU_TYPE.MEAN_LN_X:
                             c = "mean_ln_x"
@@ -604,7 +610,8 @@ class SlatInterpreter(slatParserListener):
                         elif value == pyslat.LOGNORMAL_SIGMA_TYPE.SD_X:
                             c = "sd_x"
                         cols.append(c)
-                cols.sort()
+                if given:
+                    cols.sort()
                 
         id = ctx.ID().getText()
 
-- 
2.43.0


From 725f111de90b821c40467aa6610b0da296f0a608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 40/48] fix: the integration statement no longer swaps its
 accuracy and a computed number of iterations

---
 src/SlatInterpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 1de68f9..31b095b 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -509,12 +509,12 @@ class SlatInterpreter(slatParserListener):
             methodstring = "MAQ"
         else:
             raise ValueError("Unhandled integration type")
-        precision = self._stack.pop()
-        
         if ctx.INTEGER():
             iterations = int(ctx.INTEGER().getText())
         else:
             iterations = self._stack.pop()
+        precision = self._stack.pop()
+
         # TODO: Implement choice of methods
         pyslat.IntegrationSettings(precision, iterations);
         
-- 
2.43.0


From 3932586f98608b94ee538225b6102cc4f68a0b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 41/48] fix: the keys of dictionaries in scripts are strings

---
 src/SlatInterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 31b095b..c8242b7 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -201,7 +201,7 @@ class SlatInterpreter(slatParserListener):
 
     ## Exit a parse tree produced by slatParser#dictionary_entry.
     def exitDictionary_entry(self, ctx:slatParser.Dictionary_entryContext):
-        key = (ctx.ID() or preprocess_string(ctx.STRING()).getText())
+        key = ctx.ID().getText() if ctx.ID() else preprocess_string(ctx.STRING().getText())
         value = self._stack.pop()
         self._stack.append([key, value])
 
-- 
2.43.0


From 9c1dbddb277273affdcd37f2939d071b8ad56150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 42/48] fix: the functions of a probabilistic function can be
 named by variables in scripts

---
 src/SlatInterpreter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index c8242b7..2837c02 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -208,10 +208,11 @@ class SlatInterpreter(slatParserListener):
     ## Exit a parse tree produced by slatParser#probfn_command.
     def exitProbfn_command(self, ctx:slatParser.Probfn_commandContext):
         id = ctx.ID().getText()
-        refs = ctx.function_ref()
-        mufn = (refs[0].ID() or refs[0].var_ref()).getText() 
-        sigmafn = (refs[1].ID() or refs[1].var_ref()).getText()
         options = self._stack.pop()
+        refs = ctx.function_ref()
+        # Values of variables are on the stack:
+        sigmafn = refs[1].ID().getText() if refs[1].ID() else self._stack.pop()
+        mufn = refs[0].ID().getText() if refs[0].ID() else self._stack.pop()
         mu = options['mu']
         sd = options['sd']
 
-- 
2.43.0


From a2fdea69c39171a280e3af1f7152c91c100fc041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:52 +0000
Subject: [PATCH 43/48] fix: a variable can stand for a list of columns in
 scripts, as documented

---
 src/SlatInterpreter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index 2837c02..ebac340 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -686,7 +686,13 @@ class SlatInterpreter(slatParserListener):
 
     ## Exit a parse tree produced by slatParser#recorder_cols.
     def exitRecorder_cols(self, ctx:slatParser.Recorder_colsContext):
-        values = self._pop_stack()
+        values = []
+        for value in self._pop_stack():
+            # A variable or an expression may stand for several columns:
+            if isinstance(value, (list, tuple, np.ndarray)):
+                values.extend(value)
+            else:
+                values.append(value)
         self._stack.append(values)
 
     ## Exit a parse tree produced by slatParser#python_script.
-- 
2.43.0


From 932035a582cc8f85f565b68f07e567406e2d3ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:08 +0000
Subject: [PATCH 44/48] fix: the description of a deterministic function names
 it and its type

---
 src/pyslat.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index f1a4035..947f044 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -432,10 +432,10 @@ class detfn:
     ## Return a string describing the detfn object.
     #  Used for debugging, warning, and error messages.
     def __str__(self):
-        return("Deterministic Function '{}', of type '{}', " +
-               "from parameters {}.".format(self._id, 
-                                            self._type,
-                                            self._parameters))
+        return(("Deterministic Function '{}', of type '{}', " +
+                "from parameters {}.").format(self._id, 
+                                              self._type,
+                                              self._parameters))
 
 ## Represents a probabilistic function.
 #
-- 
2.43.0


From c8f4a7614fea8df5107d7ed765f2668f0bbef54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:44 +0000
Subject: [PATCH 45/48] fix: a loss whose log has a mean of zero is not the
 absence of a loss

---
 src/pyslat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyslat.py b/src/pyslat.py
index 947f044..8ed6631 100644
--- a/src/pyslat.py
+++ b/src/pyslat.py
@@ -1031,7 +1031,8 @@ class simplelossfn(lossfn):
 
         params = []
         for d in data:
-            if d[0]:
+            # A zero mean or median stands for no loss; a zero mean(ln(x)) doesn't
+            if d[0] or (d[0] is not None and options['mu'] == LOGNORMAL_MU_TYPE.MEAN_LN_X):
                 params.append(MakeLogNormalDist(d[0], options['mu'], d[1], options['sd']))
             else:
                 params.append(DefaultLogNormalDist())
-- 
2.43.0


From 26cd5f77a0ad2af10f78480080bbdcea0a02a68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:51 +0000
Subject: [PATCH 46/48] fix: quotes at the ends of strings in scripts are part
 of them, and escapes are read left to right

---
 src/SlatInterpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SlatInterpreter.py b/src/SlatInterpreter.py
index ebac340..4969e9c 100755
--- a/src/SlatInterpreter.py
+++ b/src/SlatInterpreter.py
@@ -21,7 +21,7 @@ from contextlib import redirect_stdout
 #
 #  Escape quotes.
 def preprocess_string(s):        
-    return s.strip('\'"').replace('\\\"', '\"').replace('\\\'', '\'').replace('\\\\', '\\')
+    return re.sub(r'\\([\\\'"])', r'\1', s[1:-1])
 
 ## Interpreter class
 #
-- 
2.43.0


From 2433206be5fa794e72b8abdf8079174ff7f3b841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:35 +0000
Subject: [PATCH 47/48] fix: a single-quoted string in a script may end with an
 escaped backslash

---
 src/slatLexer.g4 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/slatLexer.g4 b/src/slatLexer.g4
index 21cc4f0..9a05612 100644
--- a/src/slatLexer.g4
+++ b/src/slatLexer.g4
@@ -134,10 +134,10 @@ fragment
 SINGLE_QUOTE : '\'';
 
 fragment
-SQ_UNESCAPED_CHAR : ~['];
+SQ_UNESCAPED_CHAR : ~[\\'];
 
 fragment
-SQ_ESCAPED_CHAR : '\\\'' | '\\\\';
+SQ_ESCAPED_CHAR : '\\' . ;
 
 fragment
 DOUBLE_QUOTE : '"';
-- 
2.43.0


From 33c29e90ed33245a04cfec802fe3fda654992c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:44 +0000
Subject: [PATCH 48/48] fix: a total cost whose variance is lost in rounding
 was not a number

---
 src/structure.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/structure.cpp b/src/structure.cpp
index 6926b82..ca499fd 100644
--- a/src/structure.cpp
+++ b/src/structure.cpp
@@ -158,6 +158,9 @@ namespace SLAT {
         }
         
         double var_cost = E_sq_cost - E_cost * E_cost;
+        if (var_cost < 0) {
+            var_cost = 0; // Lost in rounding
+        }
         double sigma_cost = sqrt(var_cost);
         return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(E_cost, sigma_cost);
     }
-- 
2.43.0

