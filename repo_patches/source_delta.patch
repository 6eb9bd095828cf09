From 8f1111da73bda7a812062c3544acbf6163f50f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:49 +0000
Subject: [PATCH 001/149] fix: replace a dying monomial instead of handing out
 a null pointer

When the last reference to a monomial is dropped on one thread, another
thread could still find it in the pool and received an empty pointer,
which stands for the constant 1. The pool now unlinks such a monomial
and creates a fresh one.
---
 src/carl/core/MonomialPool.cpp | 19 +++++++++++--------
 src/carl/core/MonomialPool.h   |  2 +-
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/carl/core/MonomialPool.cpp b/src/carl/core/MonomialPool.cpp
index 052bf50..c26b77f 100644
--- a/src/carl/core/MonomialPool.cpp
+++ b/src/carl/core/MonomialPool.cpp
@@ -17,15 +17,18 @@ Monomial::Arg MonomialPool::add(Monomial::Content&& c, exponent totalDegree) {
 	underlying_set::insert_commit_data insert_data;
 	auto res = mPool.insert_check(c, content_hash(), content_equal(), insert_data);
 	if (!res.second) {
-		return res.first->mWeakPtr.lock();
-	} else {
-		auto shared = std::shared_ptr<Monomial>(new Monomial(c, totalDegree));
-		shared.get()->mId = mIDs.get();
-		shared.get()->mWeakPtr = shared;
-		mPool.insert_commit(*shared.get(), insert_data);
-		check_rehash();
-		return shared;
+		if (auto shared = res.first->mWeakPtr.lock()) return shared;
+		// Another thread just dropped the last reference but did not call free() yet: replace the dying monomial.
+		mPool.erase(res.first);
+		res = mPool.insert_check(c, content_hash(), content_equal(), insert_data);
+		assert(res.second);
 	}
+	auto shared = std::shared_ptr<Monomial>(new Monomial(c, totalDegree));
+	shared.get()->mId = mIDs.get();
+	shared.get()->mWeakPtr = shared;
+	mPool.insert_commit(*shared.get(), insert_data);
+	check_rehash();
+	return shared;
 }
 
 Monomial::Arg MonomialPool::create(Variable _var, exponent _exp) {
diff --git a/src/carl/core/MonomialPool.h b/src/carl/core/MonomialPool.h
index 2d6e96d..d04f6e0 100644
--- a/src/carl/core/MonomialPool.h
+++ b/src/carl/core/MonomialPool.h
@@ -140,9 +140,9 @@ public:
 		CARL_LOG_TRACE("carl.core.monomial", "Freeing " << m);
 		MONOMIAL_POOL_LOCK_GUARD;
 		auto it = mPool.find(*m);
+		mIDs.free(m->id());
 		if (it != mPool.end()) {
 			CARL_LOG_TRACE("carl.core.monomial", "Found " << m->id());
-			mIDs.free(m->id());
 			mPool.erase(it);
 		} else {
 			CARL_LOG_TRACE("carl.core.monomial", "Not found in pool.");
-- 
2.43.0


From 374070ef4822c44c1d974304a9d706cc7a342503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:44:56 +0000
Subject: [PATCH 002/149] fix: keep persistent variables across clear and guard
 all readers of the variable pool

Persistent variables were stored by id only, so two of different types
overwrote each other, gaps consumed Boolean ids, and clear() gave the
name to a different variable. Lookup by name, the variable count and the
list of persistent variables were accessed without holding the mutexes.
A failed rename of an unnamed variable left it with an empty name.
---
 src/carl/core/VariablePool.cpp | 16 +++++++++-------
 src/carl/core/VariablePool.h   | 10 +++++-----
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/carl/core/VariablePool.cpp b/src/carl/core/VariablePool.cpp
index a6879fc..7ca82cd 100644
--- a/src/carl/core/VariablePool.cpp
+++ b/src/carl/core/VariablePool.cpp
@@ -39,21 +39,23 @@ Variable VariablePool::getFreshVariable(const std::string& name, VariableType ty
 
 Variable VariablePool::getFreshPersistentVariable(VariableType type) noexcept {
 	Variable res = getFreshVariable(type);
-	if (res.id() >= mPersistentVariables.size()) {
-		mPersistentVariables.resize(res.id()+1, std::make_pair(Variable::NO_VARIABLE, ""));
-	}
-	mPersistentVariables[res.id()] = std::make_pair(res, "");
+	SETNAME_LOCK_GUARD
+	mPersistentVariables.emplace_back(res, "");
 	return res;
 }
 
 Variable VariablePool::getFreshPersistentVariable(const std::string& name, VariableType type) {
-	Variable res = getFreshPersistentVariable(type);
-	mPersistentVariables[res.id()] = std::make_pair(res, name);
+	Variable res = getFreshVariable(type);
+	{
+		SETNAME_LOCK_GUARD
+		mPersistentVariables.emplace_back(res, name);
+	}
 	setName(res, name);
 	return res;
 }
 
 Variable VariablePool::findVariableWithName(const std::string& name) const noexcept {
+	SETNAME_LOCK_GUARD
 	for (const auto& v: mVariableNames) {
 		if (v.second == name) return v.first;
 	}
@@ -89,7 +91,7 @@ std::string VariablePool::getName(Variable v, bool variableName) const {
 
 void VariablePool::setName(Variable v, const std::string& name) {
 	SETNAME_LOCK_GUARD
-	mVariableNames[v] = name;
+	mVariableNames.insert_or_assign(v, name);
 }
 
 }
diff --git a/src/carl/core/VariablePool.h b/src/carl/core/VariablePool.h
index 78334b7..53882df 100644
--- a/src/carl/core/VariablePool.h
+++ b/src/carl/core/VariablePool.h
@@ -111,13 +111,11 @@ public:
 		mNextIDs.fill(1);
 		for (const auto& pv : mPersistentVariables) {
 			Variable v = pv.first;
-			while (nextID(v.type()) < v.id()) {
-				getFreshVariable(v.type());
+			if (nextID(v.type()) <= v.id()) {
+				nextID(v.type()) = v.id() + 1;
 			}
 			if (!pv.second.empty()) {
-				getFreshVariable(pv.second, v.type());
-			} else {
-				getFreshVariable(v.type());
+				setName(v, pv.second);
 			}
 		}
 	}
@@ -160,6 +158,7 @@ public:
 	 * @return Number of variables.
 	 */
 	std::size_t nrVariables(VariableType type = VariableType::VT_REAL) const noexcept {
+		FRESHVAR_LOCK_GUARD
 		return nextID(type) - 1;
 	}
 
@@ -167,6 +166,7 @@ public:
 	 * Print variable names to the stream.
 	 */
 	void printVariableNamesToStream(std::ostream& os) {
+		SETNAME_LOCK_GUARD
 		for (auto const& v : mVariableNames) {
 			os << v.second << " ";
 		}
-- 
2.43.0


From 2270c78add6acbdb7409091afa7d033831827108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:45:45 +0000
Subject: [PATCH 003/149] fix: reset the largest id when an id pool is cleared

---
 src/carl/util/IDPool.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/util/IDPool.h b/src/carl/util/IDPool.h
index 727b41b..d049cf5 100644
--- a/src/carl/util/IDPool.h
+++ b/src/carl/util/IDPool.h
@@ -49,6 +49,7 @@ namespace carl {
 		void clear() {
 			IDPOOL_LOCK;
 			mFreeIDs = Bitset(true);
+			mLargestID = 0;
 		}
 		friend std::ostream& operator<<(std::ostream& os, const IDPool& p) {
 			return os << "Free: " << p.mFreeIDs;
-- 
2.43.0


From 772755c4871978205f6cc521c9d0bb0bed32c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:18 +0000
Subject: [PATCH 004/149] fix: guard every access to the shared prime table

The table was read and its end checked without holding the mutex, and
growing the vector invalidated primes handed out by reference. All
accesses now lock, and a deque keeps references valid.
---
 src/carl/numbers/PrimeFactory.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/carl/numbers/PrimeFactory.h b/src/carl/numbers/PrimeFactory.h
index 31e5ae3..4695d1a 100644
--- a/src/carl/numbers/PrimeFactory.h
+++ b/src/carl/numbers/PrimeFactory.h
@@ -2,6 +2,7 @@
 
 #include "numbers.h"
 
+#include <deque>
 #include <mutex>
 
 namespace carl {
@@ -12,23 +13,30 @@ namespace carl {
 template<typename T>
 class PrimeFactory
 {
-	static std::vector<T> mPrimes;
+	/// A deque, as references to its elements remain valid when it grows.
+	static std::deque<T> mPrimes;
 #ifdef THREAD_SAFE
-	static std::mutex mPrimeMutex;
+	static std::recursive_mutex mPrimeMutex;
+#define PRIMES_LOCK_GUARD std::lock_guard<std::recursive_mutex> guard(mPrimeMutex);
+#else
+#define PRIMES_LOCK_GUARD
 #endif
 	std::size_t mNext = 0;
 public:
 	/// Returns the number of already computed primes.
 	std::size_t size() const {
+		PRIMES_LOCK_GUARD
 		return mPrimes.size();
 	}
 	/// Provides const access to the computed primes. Asserts that id is smaller than size().
 	const T& operator[](std::size_t id) const {
+		PRIMES_LOCK_GUARD
 		assert(id < mPrimes.size());
 		return mPrimes[id];
 	}
 	/// Provides access to the computed primes. If id is at least size(), the missing primes are computed on-the-fly.
 	const T& operator[](std::size_t id) {
+		PRIMES_LOCK_GUARD
 		while (id >= mPrimes.size()) nextPrime();
 		return mPrimes[id];
 	}
@@ -37,13 +45,13 @@ public:
 };
 
 template<typename T>
-std::vector<T> PrimeFactory<T>::mPrimes = {
+std::deque<T> PrimeFactory<T>::mPrimes = {
 	2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41,
 	43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97
 };
 #ifdef THREAD_SAFE
 template<typename T>
-std::mutex PrimeFactory<T>::mPrimeMutex;
+std::recursive_mutex PrimeFactory<T>::mPrimeMutex;
 #endif
 
 namespace detail {
@@ -72,10 +80,8 @@ namespace detail {
 
 template<typename T>
 const T& PrimeFactory<T>::nextPrime() {
+	PRIMES_LOCK_GUARD
 	if (mNext == mPrimes.size()) {
-#ifdef THREAD_SAFE
-		std::lock_guard<std::mutex> guard(mPrimeMutex);
-#endif
 		mPrimes.emplace_back(detail::next_prime(mPrimes.back(), *this));
 	}
     return mPrimes[mNext++];
-- 
2.43.0


From 276046abbf48c7910ef1d4fe2cc5ab01f7ec6317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:20 +0000
Subject: [PATCH 005/149] fix: do not cache an incomplete factorization when an
 allocation fails

---
 src/carl/numbers/FactorizationFactory.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/carl/numbers/FactorizationFactory.h b/src/carl/numbers/FactorizationFactory.h
index db9b66d..032c840 100644
--- a/src/carl/numbers/FactorizationFactory.h
+++ b/src/carl/numbers/FactorizationFactory.h
@@ -40,17 +40,18 @@ public:
 			return *mCache[n];
 		}
 		assert(n >= 2);
-		mCache[n] = std::vector<uint>();
+		std::vector<uint> factors;
 		uint cur = n;
 		for (std::size_t i = 0; ;) {
 			if (cur % mPrimes[i] == 0) {
-				mCache[n]->push_back(mPrimes[i]);
+				factors.push_back(mPrimes[i]);
 				cur /= mPrimes[i];
 			} else {
 				i++;
 			}
 			if (cur == 1) break;
 		}
+		mCache[n] = std::move(factors);
 		return *mCache[n];
 	}
 	
-- 
2.43.0


From 614f823ce22881ab4414cb1db1a421df41d59b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:16 +0000
Subject: [PATCH 006/149] fix: measure durations with a monotonic clock

high_resolution_clock is the system clock with libstdc++, so setting the
clock back during a measurement wrapped the unsigned duration.
---
 src/carl-statistics/Timing.h | 2 +-
 src/carl/util/Timer.h        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl-statistics/Timing.h b/src/carl-statistics/Timing.h
index d7a34a6..94012f2 100644
--- a/src/carl-statistics/Timing.h
+++ b/src/carl-statistics/Timing.h
@@ -7,7 +7,7 @@ namespace statistics {
 
 namespace timing {
     /// The clock type used here.
-    using clock = std::chrono::high_resolution_clock;
+    using clock = std::chrono::steady_clock;
     /// The duration type used here.
     using duration = std::chrono::duration<std::size_t,std::milli>;
     /// The type of a time point.
diff --git a/src/carl/util/Timer.h b/src/carl/util/Timer.h
index ca7ff00..b25f755 100644
--- a/src/carl/util/Timer.h
+++ b/src/carl/util/Timer.h
@@ -17,7 +17,7 @@ namespace carl
  */
 class Timer {
 	/// The clock type used jere.
-	using clock = std::chrono::high_resolution_clock;
+	using clock = std::chrono::steady_clock;
 	/// The duration type used here.
 	using duration = std::chrono::duration<std::size_t,std::milli>;
 	/// Start of this timer.
-- 
2.43.0


From c58f732ac4db414e1d88ec795cea237097057194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:40 +0000
Subject: [PATCH 007/149] fix: let a repeated collection update the collected
 statistics

---
 src/carl-statistics/Statistics.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/carl-statistics/Statistics.h b/src/carl-statistics/Statistics.h
index df67e8f..a3a29f0 100644
--- a/src/carl-statistics/Statistics.h
+++ b/src/carl-statistics/Statistics.h
@@ -26,14 +26,14 @@ protected:
 		assert(!has_illegal_chars(key) && "spaces, (, ) are not allowed here");
 		if constexpr(std::is_same<T,std::string>::value) {
 			assert(!has_illegal_chars(static_cast<std::string>(value)) && "spaces, (, ) are not allowed here");
-			mCollected.emplace(key, value);
+			mCollected.insert_or_assign(key, value);
 		} else if constexpr(std::is_same<T,timer>::value) {
-			mCollected.emplace(key+"_count", std::to_string(static_cast<timer>(value).count()));
-			mCollected.emplace(key+"_overall_ms", std::to_string(static_cast<timer>(value).overall_ms()));
+			mCollected.insert_or_assign(key+"_count", std::to_string(static_cast<timer>(value).count()));
+			mCollected.insert_or_assign(key+"_overall_ms", std::to_string(static_cast<timer>(value).overall_ms()));
 		} else {
 			std::stringstream ss;
 			ss << value;
-			mCollected.emplace(key, ss.str());
+			mCollected.insert_or_assign(key, ss.str());
 		}
 	}
 public:
-- 
2.43.0


From 72c51d4e4309d1dec15ceb2ffc3b61fb38a9c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:54 +0000
Subject: [PATCH 008/149] fix: do not leave a nameless statistics object behind
 when naming it fails

---
 src/carl-statistics/StatisticsCollector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/carl-statistics/StatisticsCollector.h b/src/carl-statistics/StatisticsCollector.h
index 5955e95..5c7736a 100644
--- a/src/carl-statistics/StatisticsCollector.h
+++ b/src/carl-statistics/StatisticsCollector.h
@@ -17,9 +17,9 @@ private:
 public:
 	template<typename T>
 	T& get(const std::string& name) {
-		auto& ptr = mStatistics.emplace_back(std::make_unique<T>());
-		ptr->set_name(name);
-		return static_cast<T&>(*ptr);
+		auto stats = std::make_unique<T>();
+		stats->set_name(name);
+		return static_cast<T&>(*mStatistics.emplace_back(std::move(stats)));
 	}
 
 	void collect();
-- 
2.43.0


From fc0cc2c0ede647123f931b93ca2bb961c0d0a4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:03 +0000
Subject: [PATCH 009/149] fix: run every settings finalizer

---
 src/carl-settings/SettingsParser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/carl-settings/SettingsParser.cpp b/src/carl-settings/SettingsParser.cpp
index a44e8f4..bd923a4 100644
--- a/src/carl-settings/SettingsParser.cpp
+++ b/src/carl-settings/SettingsParser.cpp
@@ -87,9 +87,12 @@ void SettingsParser::parse_config_file(bool allow_unregistered) {
 }
 
 bool SettingsParser::finalize_settings() {
-	return std::any_of(mFinalizer.begin(), mFinalizer.end(),
-		[](const auto& f){ return f(); }
-	);
+	bool changed = false;
+	for (const auto& f: mFinalizer) {
+		// Every finalizer has to run, even if some other already changed something.
+		changed = f() || changed;
+	}
+	return changed;
 }
 
 void SettingsParser::finalize() {
-- 
2.43.0


From 07e7b6e6c393e3f9afe8957f1397dc9e8999a3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:33 +0000
Subject: [PATCH 010/149] fix: end a DIMACS import when the file cannot be read

---
 src/carl-io/DIMACSImporter.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/carl-io/DIMACSImporter.h b/src/carl-io/DIMACSImporter.h
index 75b35f8..6e2c8e5 100644
--- a/src/carl-io/DIMACSImporter.h
+++ b/src/carl-io/DIMACSImporter.h
@@ -4,6 +4,7 @@
 #include <iostream>
 #include <regex>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 
 #include <carl/formula/Formula.h>
@@ -42,8 +43,7 @@ private:
 	Formula<Pol> parseFormula() {
 		std::string line;
 		std::vector<Formula<Pol>> formulas;
-		while (!in.eof()) {
-			std::getline(in, line);
+		while (std::getline(in, line)) {
 			if (line == "") continue;
 			if (line == "reset") break;
 			if (line.front() == 'c') continue;
@@ -61,6 +61,9 @@ private:
 			}
 			formulas.push_back(parseLine(line));
 		}
+		if (in.bad()) {
+			throw std::runtime_error("Reading the DIMACS file failed.");
+		}
 		return Formula<Pol>(AND, std::move(formulas));
 	}
 	
@@ -69,11 +72,15 @@ public:
 	DIMACSImporter(const std::string& filename):
 		in(filename),
 		headerRegex("p cnf (\\d+) (\\d+)")
-	{}
+	{
+		if (!in) {
+			CARL_LOG_ERROR("carl.formula", "Could not open DIMACS file \"" << filename << "\".");
+		}
+	}
 	
 	/// Checks if there is another formula to parse.
 	bool hasNext() const {
-		return !in.eof();
+		return in.good();
 	}
 	
 	/// Parses and returns the next formula (until the next reset line).
-- 
2.43.0


From 08868789f9dc75707c7827fd79bb5352a1243260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:13 +0000
Subject: [PATCH 011/149] fix: guard all readers of the shared cache

---
 src/carl/util/Cache.h   | 3 ++-
 src/carl/util/Cache.tpp | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/carl/util/Cache.h b/src/carl/util/Cache.h
index 5afd2cb..ce590f4 100644
--- a/src/carl/util/Cache.h
+++ b/src/carl/util/Cache.h
@@ -124,7 +124,7 @@ namespace carl
         /**
          * A mutex for situation where any member is changed. TODO: Refine the locking-situations. 
          */
-        std::recursive_mutex mMutex;
+        mutable std::recursive_mutex mMutex;
         
         /**
          *  The container storing all cached entries. It maps the objects to store to cache information, which cover a usage counter, 
@@ -204,6 +204,7 @@ namespace carl
          */
         const T& get( Ref _refStoragePos ) const
         {
+            std::lock_guard<std::recursive_mutex> lock( mMutex );
             assert( _refStoragePos < mCacheRefs.size() );
             assert( mCacheRefs[_refStoragePos] != nullptr );
             assert( mCacheRefs[_refStoragePos]->second.usageCount > 0 );
diff --git a/src/carl/util/Cache.tpp b/src/carl/util/Cache.tpp
index 939c03f..f5a3351 100644
--- a/src/carl/util/Cache.tpp
+++ b/src/carl/util/Cache.tpp
@@ -238,13 +238,13 @@ namespace carl
     template<typename T>
     void Cache<T>::strengthenActivity( Ref _refStoragePos )
     {
+        std::lock_guard<std::recursive_mutex> lock( mMutex );
         assert( _refStoragePos < mCacheRefs.size() );
         TypeInfoPair<T,Info>* cacheRef = mCacheRefs[_refStoragePos];
         assert( cacheRef != nullptr );
         // update the activity of the cache entry at the given position
         if( (cacheRef->second.activity += mActivityIncrement) > mActivityThreshold )
         {
-            std::lock_guard<std::recursive_mutex> lock( mMutex );
             // rescale if the threshold for the maximum activity has been exceeded
             for( auto iter = mCache.begin(); iter != mCache.end(); ++iter )
                 (*iter)->second.activity *= mActivityDecrementFactor;
@@ -252,7 +252,6 @@ namespace carl
             mMaxActivity *= mActivityDecrementFactor;
         }
         // update the maximum activity
-        std::lock_guard<std::recursive_mutex> lock( mMutex );
         if( mMaxActivity < cacheRef->second.activity )
             mMaxActivity = cacheRef->second.activity;
     }
-- 
2.43.0


From 9089dbf1386d9c2082fb6b2da8c2a3f46f9979ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:10 +0000
Subject: [PATCH 012/149] fix: keep one list of references when a cache entry
 is updated

---
 src/carl/util/Cache.tpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/carl/util/Cache.tpp b/src/carl/util/Cache.tpp
index f5a3351..ed0c192 100644
--- a/src/carl/util/Cache.tpp
+++ b/src/carl/util/Cache.tpp
@@ -63,18 +63,12 @@ namespace carl
             {
                 TypeInfoPair<T,Info>* element = *ret.first;
                 (*_update)( *element->first, *_toCache );
-                mCache.erase( ret.first );
-                element->first->rehash();
-                auto retB = mCache.insert( element );
-                assert( retB.second );
-                for( const Ref& ref : element->second.refStoragePositions )
-                    mCacheRefs[ref] = *retB.first;
                 delete newElement;
-                Info& info = (*retB.first)->second;
-                assert( info.refStoragePositions.size() > 0);
-                assert( info.refStoragePositions.front() > 0 );
-                info.refStoragePositions.insert( info.refStoragePositions.end(), element->second.refStoragePositions.begin(), element->second.refStoragePositions.end() );
-                return std::make_pair( info.refStoragePositions.front(), false );
+                assert( element->second.refStoragePositions.size() > 0);
+                Ref ref = element->second.refStoragePositions.front();
+                assert( ref > 0 );
+                rehash( ref ); // The updated entry might now coincide with another one.
+                return std::make_pair( ref, false );
             }
             else
                 delete newElement;
-- 
2.43.0


From cc9f7aad3420fad89f61f03246fc361e7bae6190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:03 +0000
Subject: [PATCH 013/149] fix: subtract a product from the zero polynomial once

---
 src/carl/core/MultivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 7a3f3ea..c55a720 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -383,6 +383,7 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::subtractProduct(const Term
 	if (carl::isZero(*this)) {
 		*this = - factor * p;
         assert(this->isConsistent());
+		return;
 	}
 	if (carl::isZero(factor.coeff())) return;
 	if (p.nrTerms() == 1) {
-- 
2.43.0


From 3f11012ea3aefbe0f669cc9eb5db2cf4757db496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:23 +0000
Subject: [PATCH 014/149] fix: merge a subtracted constant term with the
 constant part

---
 src/carl/core/MultivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index c55a720..9870020 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -901,6 +901,7 @@ MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff,
 	///@todo Check if this works with ordering.
 	if (carl::isZero(rhs.coeff())) return *this;
 	CARL_LOG_TRACE("carl.core", *this << " -= " << rhs);
+	if (rhs.isConstant()) return *this -= rhs.coeff();
 	if (Policies::searchLinear)
 	{
 		auto it = mTerms.begin();
-- 
2.43.0


From feb459e063960ef3406b40cc5e062279a6e07b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:23 +0000
Subject: [PATCH 015/149] fix: insert a new term at its position in addTerm

---
 src/carl/core/MultivariatePolynomial.tpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 9870020..426e3e7 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -421,12 +421,15 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::addTerm(const Term<Coeff>&
 		} else mTerms.insert(mTerms.begin(), term);
 		return;
 	}
-	if (mOrdered) {
+	if (mOrdered || mTerms.empty()) {
 		auto it = mTerms.begin();
 		for (; it != mTerms.end(); it++) {
 			CompareResult res = Ordering::compare(term, *it);
 			switch (res) {
-			case CompareResult::LESS: break;
+			case CompareResult::LESS: {
+				mTerms.insert(it, term);
+				return;
+			}
 			case CompareResult::EQUAL: {
 				it->coeff() += term.coeff();
 				if (carl::isZero(it->coeff())) {
@@ -462,9 +465,7 @@ void MultivariatePolynomial<Coeff,Ordering,Policies>::addTerm(const Term<Coeff>&
 					return;
 				}
 			}
-			auto lt = mTerms.back();
-			mTerms.push_back(term);
-			std::swap(lt, mTerms.back());
+			mTerms.insert(--mTerms.end(), term);
 		}
 		}
 	}
-- 
2.43.0


From c81991a581bab15c3d296ac1c0d7a53a46682627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:41 +0000
Subject: [PATCH 016/149] fix: multiplying a polynomial with a zero term gives
 zero

---
 src/carl/core/MultivariatePolynomial.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 426e3e7..b871cef 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -1057,6 +1057,10 @@ template<typename Coeff, typename Ordering, typename Policies>
 MultivariatePolynomial<Coeff,Ordering,Policies>& MultivariatePolynomial<Coeff,Ordering,Policies>::operator*=(const Term<Coeff>& rhs)
 {
 	assert(this->isConsistent());
+	if (carl::isZero(rhs)) {
+		mTerms.clear();
+		return *this;
+	}
 	///@todo more efficient.
 	TermsType newTerms;
 	newTerms.reserve(mTerms.size());
-- 
2.43.0


From ce1f8b4bfb5298b81696557bad5bb86cd1490677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:41 +0000
Subject: [PATCH 017/149] fix: compare the zero polynomial with a term

---
 src/carl/core/MultivariatePolynomial_operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/MultivariatePolynomial_operators.h b/src/carl/core/MultivariatePolynomial_operators.h
index d4e1365..ecd9f0c 100644
--- a/src/carl/core/MultivariatePolynomial_operators.h
+++ b/src/carl/core/MultivariatePolynomial_operators.h
@@ -40,7 +40,7 @@ inline bool operator==(const MultivariatePolynomial<C,O,P>& lhs, const Multivari
 template<typename C, typename O, typename P>
 inline bool operator==(const MultivariatePolynomial<C,O,P>& lhs, const Term<C>& rhs) {
 	if (isZero(lhs) && isZero(rhs)) return true;
-	if (lhs.nrTerms() > 1) return false;
+	if (lhs.nrTerms() != 1) return false;
 	return lhs.lterm() == rhs;
 }
 template<typename C, typename O, typename P>
-- 
2.43.0


From 7184305d38fdf72c8c962891872d0a412f58f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:16 +0000
Subject: [PATCH 018/149] fix: keep a valid term buffer when creating another
 one fails

---
 src/carl/util/TermAdditionManager.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/carl/util/TermAdditionManager.h b/src/carl/util/TermAdditionManager.h
index 4b77437..6734fc4 100644
--- a/src/carl/util/TermAdditionManager.h
+++ b/src/carl/util/TermAdditionManager.h
@@ -77,11 +77,9 @@ public:
 		TAM_LOCK_GUARD
 		assert(mNextId != mData.end());
 		while (std::get<2>(*mNextId)) {
-			mNextId++;
-			if (mNextId == mData.end()) {
-				mNextId = mData.emplace(mData.end());
-				std::get<4>(*mNextId) = 1;
-			}
+			TAMId next = std::next(mNextId);
+			if (next == mData.end()) next = createNewEntry();
+			mNextId = next;
 		}
         Tuple& data = *mNextId;
         Terms& terms = std::get<1>(data);
-- 
2.43.0


From 7cebc7a67783a9be3b17b1d09fa8dab9c6ae78b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:32 +0000
Subject: [PATCH 019/149] fix: reserve the term buffer before changing the
 polynomial in addition

---
 src/carl/core/MultivariatePolynomial.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index b871cef..3c98ad8 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -668,6 +668,7 @@ MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff,
 		*this = rhs;
 		return *this += c;
 	}
+	auto id = mTermAdditionManager.getId(mTerms.size() + rhs.mTerms.size());
 	TermType newlterm;
 	CompareResult res = Ordering::compare(lterm().monomial(), rhs.lterm().monomial());
     auto rhsEnd = rhs.mTerms.end();
@@ -683,7 +684,6 @@ MultivariatePolynomial<Coeff, Ordering, Policies>& MultivariatePolynomial<Coeff,
         mTerms.pop_back();
 		--rhsEnd;
 	}
-	auto id = mTermAdditionManager.getId(mTerms.size() + rhs.mTerms.size());
 	for (auto termIter = mTerms.begin(); termIter != mTerms.end(); ++termIter) {
 		mTermAdditionManager.template addTerm<false,false>(id, *termIter);
 	}
-- 
2.43.0


From 3a14bb1874baf2952272907cef494a58b70cc1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:21:49 +0000
Subject: [PATCH 020/149] fix: minimal degree of a variable when collecting its
 information for one variable

The minimal degree stayed 0 when the information was gathered for a single
variable, as the first occurrence only raised the maximal degree.
---
 src/carl/core/VariableInformation.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/carl/core/VariableInformation.h b/src/carl/core/VariableInformation.h
index 74fb553..67b3716 100644
--- a/src/carl/core/VariableInformation.h
+++ b/src/carl/core/VariableInformation.h
@@ -81,7 +81,7 @@ public:
 		 * @return true if degree was smaller.
          */
 	bool lowerMinDegree(std::size_t degree) {
-		if (mMinDegree > degree) {
+		if (mMinDegree == 0 || mMinDegree > degree) {
 			mMinDegree = degree;
 			return true;
 		}
@@ -104,10 +104,8 @@ public:
 			// One more term in which the variable occurs.
 			increaseOccurence();
 			// Update minimal/maximal degree.
-			if (!raiseMaxDegree(e)) {
-				// Only if raising failed, lowering can be successful.
-				lowerMinDegree(e);
-			}
+			raiseMaxDegree(e);
+			lowerMinDegree(e);
 		}
 	}
 };
@@ -179,10 +177,8 @@ public:
 			// One more term in which the variable occurs.
 			this->increaseOccurence();
 			// Update minimal/maximal degree.
-			if (!this->raiseMaxDegree(e)) {
-				// Only if raising failed, lowering can be successful.
-				this->lowerMinDegree(e);
-			}
+			this->raiseMaxDegree(e);
+			this->lowerMinDegree(e);
 		}
 	}
 };
-- 
2.43.0


From ce2380e7242454e9b35e1c2f31669e5a9662e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:04 +0000
Subject: [PATCH 021/149] fix: constraint requested again while its last
 reference is being dropped

The pool returned a null pointer when another thread had dropped the last
reference to the constraint but not yet removed it from the pool.
---
 src/carl/formula/ConstraintPool.h   |  4 ++--
 src/carl/formula/ConstraintPool.tpp | 26 ++++++++++++++------------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/carl/formula/ConstraintPool.h b/src/carl/formula/ConstraintPool.h
index 3dfe7b7..41b3165 100644
--- a/src/carl/formula/ConstraintPool.h
+++ b/src/carl/formula/ConstraintPool.h
@@ -170,8 +170,8 @@ public:
         if (_cc->id() != 0) {
             CONSTRAINT_POOL_LOCK_GUARD
             auto it = mPool.find(*_cc);
-            assert(it != mPool.end());
-            mPool.erase(it);
+            // The constraint has been replaced already if it was requested again while it was dying.
+            if (it != mPool.end()) mPool.erase(it);
         }
     }
 
diff --git a/src/carl/formula/ConstraintPool.tpp b/src/carl/formula/ConstraintPool.tpp
index 33aa665..07f4707 100644
--- a/src/carl/formula/ConstraintPool.tpp
+++ b/src/carl/formula/ConstraintPool.tpp
@@ -65,11 +65,10 @@ std::shared_ptr<ConstraintContent<Pol>> ConstraintPool<Pol>::add(RawConstraint<P
 	if (constraintConsistent == 2) { // Constraint contains variables.
 		auto res = mPool.find(_constraint, content_hash(), content_equal());
 		if (res != mPool.end()) {
-			return res->mWeakPtr.lock();
-		} else {
-			_constraint.simplify();
-			return addToPool(std::move(_constraint));
+			if (auto shared = res->mWeakPtr.lock()) return shared;
 		}
+		_constraint.simplify();
+		return addToPool(std::move(_constraint));
 	} else { // Constraint contains no variables.
 		return constraintConsistent ? mConsistentConstraint : mInconsistentConstraint;
 	}
@@ -80,15 +79,18 @@ std::shared_ptr<ConstraintContent<Pol>> ConstraintPool<Pol>::addToPool(RawConstr
 	typename underlying_set::insert_commit_data insert_data;
 	auto res = mPool.insert_check(_constraint, content_hash(), content_equal(), insert_data);
 	if (!res.second) {
-		return res.first->mWeakPtr.lock();
-	} else {
-		auto shared = std::shared_ptr<ConstraintContent<Pol>>(new ConstraintContent<Pol>(mIdAllocator, std::move(_constraint.mLhs), _constraint.mRelation, std::move(_constraint.mVariables), _constraint.mLhsDefiniteness, _constraint.is_consistent()));
-		++mIdAllocator;
-		shared.get()->mWeakPtr = shared;
-		mPool.insert_commit(*shared.get(), insert_data);
-		check_rehash();
-		return shared;
+		if (auto shared = res.first->mWeakPtr.lock()) return shared;
+		// Another thread just dropped the last reference but did not call free() yet: replace the dying constraint.
+		mPool.erase(res.first);
+		res = mPool.insert_check(_constraint, content_hash(), content_equal(), insert_data);
+		assert(res.second);
 	}
+	auto shared = std::shared_ptr<ConstraintContent<Pol>>(new ConstraintContent<Pol>(mIdAllocator, std::move(_constraint.mLhs), _constraint.mRelation, std::move(_constraint.mVariables), _constraint.mLhsDefiniteness, _constraint.is_consistent()));
+	++mIdAllocator;
+	shared.get()->mWeakPtr = shared;
+	mPool.insert_commit(*shared.get(), insert_data);
+	check_rehash();
+	return shared;
 }
 
 template<typename Pol>
-- 
2.43.0


From 83e1e9b5caaf007fbcaf68988d4702b11fc0b384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:22:18 +0000
Subject: [PATCH 022/149] fix: constraint stays locked when computing its
 factorization fails

---
 src/carl/formula/Constraint.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/carl/formula/Constraint.h b/src/carl/formula/Constraint.h
index d3ab7ee..3781bc6 100644
--- a/src/carl/formula/Constraint.h
+++ b/src/carl/formula/Constraint.h
@@ -307,10 +307,9 @@ namespace carl
              */
             bool hasFactorization() const
             {
-                FACTORIZATION_LOCK
+                FACTORIZATION_LOCK_GUARD
                 if( mpContent->mFactorization.empty() )
                     mpContent->initFactorization();
-                FACTORIZATION_UNLOCK
                 return (mpContent->mFactorization.size() > 1);
             }
 
@@ -319,10 +318,9 @@ namespace carl
              */
             const Factors<Pol>& factorization() const
             {
-                FACTORIZATION_LOCK
+                FACTORIZATION_LOCK_GUARD
                 if( mpContent->mFactorization.empty() )
                     mpContent->initFactorization();
-                FACTORIZATION_UNLOCK
                 return mpContent->mFactorization;
             }
 
-- 
2.43.0


From 529a19d12c743fc96388eb86f2f249a3ee2eb844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:39 +0000
Subject: [PATCH 023/149] fix: race on the variable information of a constraint

Computing the coefficients of a variable overwrote the information another
thread might be reading through a reference. Keep the information with
coefficients in entries of their own that never change.
---
 src/carl/formula/Constraint.h   | 18 ++++++++++++++----
 src/carl/formula/Constraint.tpp | 21 +++++++--------------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/carl/formula/Constraint.h b/src/carl/formula/Constraint.h
index 3781bc6..4a1975b 100644
--- a/src/carl/formula/Constraint.h
+++ b/src/carl/formula/Constraint.h
@@ -103,6 +103,8 @@ namespace carl
             Factors<Pol> mFactorization;
             /// A map which stores information about properties of the variables in this constraint.
             VarInfoMap<Pol> mVarInfoMap;
+            /// As mVarInfoMap, but including the coefficients. Filled on demand; existing entries never change, as references to them are handed out.
+            VarInfoMap<Pol> mVarInfoCoeffMap;
             /// Mutex for access to variable information map.
             std::mutex mVarInfoMapMutex;
             /// Mutex for access to the factorization.
@@ -123,6 +125,16 @@ namespace carl
              */
             void initFactorization();
             
+            /**
+             * @return The information of the given variable including its coefficients.
+             */
+            const VarInfo<Pol>& varInfoWithCoefficients( const Variable& _variable ) {
+                auto varInfo = mVarInfoCoeffMap.find( _variable );
+                if( varInfo == mVarInfoCoeffMap.end() )
+                    varInfo = mVarInfoCoeffMap.emplace( _variable, mLhs.template getVarInfo<true>( _variable ) ).first;
+                return varInfo->second;
+            }
+            
             void initVariableInformations() {
                 VariablesInformation<false,Pol> varinfos = mLhs.template getVarInfo<false>();
 				for (const auto& vi: varinfos) {
@@ -389,10 +401,8 @@ namespace carl
                 VARINFOMAP_LOCK_GUARD
                 auto varInfo = mpContent->mVarInfoMap.find( _variable );
                 assert( varInfo != mpContent->mVarInfoMap.end() );
-                if( _withCoefficients && !varInfo->second.hasCoeff() )
-                {
-                    varInfo->second = mpContent->mLhs.template getVarInfo<true>( _variable );
-                }
+                if( _withCoefficients )
+                    return mpContent->varInfoWithCoefficients( _variable );
                 return varInfo->second;
             }
 			
diff --git a/src/carl/formula/Constraint.tpp b/src/carl/formula/Constraint.tpp
index 18c76fb..28a437d 100644
--- a/src/carl/formula/Constraint.tpp
+++ b/src/carl/formula/Constraint.tpp
@@ -437,14 +437,10 @@ namespace carl
     Pol Constraint<Pol>::coefficient( const Variable& _var, uint _degree ) const
     {
         VARINFOMAP_LOCK_GUARD
-        auto varInfo = mpContent->mVarInfoMap.find( _var );
-        assert( varInfo != mpContent->mVarInfoMap.end() );
-        if( !varInfo->second.hasCoeff() )
-        {
-            varInfo->second = lhs().template getVarInfo<true>( _var );
-        }
-        auto d = varInfo->second.coeffs().find( _degree );
-        return d != varInfo->second.coeffs().end() ? d->second : Pol( typename Pol::NumberType( 0 ) );
+        assert( mpContent->mVarInfoMap.find( _var ) != mpContent->mVarInfoMap.end() );
+        const auto& coeffs = mpContent->varInfoWithCoefficients( _var ).coeffs();
+        auto d = coeffs.find( _degree );
+        return d != coeffs.end() ? d->second : Pol( typename Pol::NumberType( 0 ) );
     }
 
     template<typename Pol>
@@ -458,12 +454,9 @@ namespace carl
 			if (varInfoPair->first == _exclude) continue;
             if( varInfoPair->second.maxDegree() == 1 )
             {
-                if( !varInfoPair->second.hasCoeff() )
-                {
-                    varInfoPair->second = lhs().template getVarInfo<true>( varInfoPair->first );
-                }
-                auto d = varInfoPair->second.coeffs().find( 1 );
-                assert( d != varInfoPair->second.coeffs().end() );
+                const auto& coeffs = mpContent->varInfoWithCoefficients( varInfoPair->first ).coeffs();
+                auto d = coeffs.find( 1 );
+                assert( d != coeffs.end() );
                 if( d->second.isConstant() && (varInfoPair->first.type() != carl::VariableType::VT_INT || carl::isOne(carl::abs( d->second.constantPart() ))) )
                 {
                     _substitutionVariable = varInfoPair->first;
-- 
2.43.0


From 44135f5a514872d838f510eba85f503689592b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:11 +0000
Subject: [PATCH 024/149] fix: normal form of a constraint depended on the
 constraints created before

An integer constraint that simplifies to a univariate monomial was stored
without the simplification of such monomials. Creating the latter directly
then gave different constraints before and after.
---
 src/carl/formula/ConstraintRaw.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/ConstraintRaw.h b/src/carl/formula/ConstraintRaw.h
index e9a3751..471ba07 100644
--- a/src/carl/formula/ConstraintRaw.h
+++ b/src/carl/formula/ConstraintRaw.h
@@ -41,7 +41,11 @@ struct RawConstraint {
 
 	void simplify() {
 		if (simplify_nonlinear_univariate_monomial()) initialize();
-		if (simplify_integer()) initialize();
+		if (simplify_integer()) {
+			initialize();
+			// The result may be a monomial now. It has to be in the form that creating it directly gives.
+			if (simplify_nonlinear_univariate_monomial()) initialize();
+		}
 	}
 
 
-- 
2.43.0


From 23223763097ea298d6478306c6a1963279ab7212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:47 +0000
Subject: [PATCH 025/149] fix: value truncated by an allocation failure was
 recorded as a statistic

---
 src/carl-statistics/Statistics.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl-statistics/Statistics.h b/src/carl-statistics/Statistics.h
index a3a29f0..218fc1e 100644
--- a/src/carl-statistics/Statistics.h
+++ b/src/carl-statistics/Statistics.h
@@ -32,6 +32,8 @@ protected:
 			mCollected.insert_or_assign(key+"_overall_ms", std::to_string(static_cast<timer>(value).overall_ms()));
 		} else {
 			std::stringstream ss;
+			// A failure while printing must not leave us with a truncated value.
+			ss.exceptions(std::ios_base::badbit);
 			ss << value;
 			mCollected.insert_or_assign(key, ss.str());
 		}
-- 
2.43.0


From ee1c2074ff5cb9896e2fb7874f797e7f8da898ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:31 +0000
Subject: [PATCH 026/149] fix: allocation failure while declaring a function
 corrupted later declarations

---
 src/carl/formula/uninterpreted/UFManager.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/uninterpreted/UFManager.cpp b/src/carl/formula/uninterpreted/UFManager.cpp
index 84faba4..7a034c8 100644
--- a/src/carl/formula/uninterpreted/UFManager.cpp
+++ b/src/carl/formula/uninterpreted/UFManager.cpp
@@ -17,9 +17,14 @@ namespace carl {
 			return UninterpretedFunction(iter->second);
 		}
 		// Create the uninterpreted function
-		mUFIdMap.emplace(ufc.get(), mUFs.size());
 		UninterpretedFunction uf(mUFs.size());
 		mUFs.push_back(std::move(ufc));
+		try {
+			mUFIdMap.emplace(mUFs.back().get(), uf.id());
+		} catch (...) {
+			mUFs.pop_back();
+			throw;
+		}
 		return uf;
 	}
 }
-- 
2.43.0


From d8a184429cbb628bdb5c5a12a7934414cfab1002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:31 +0000
Subject: [PATCH 027/149] fix: allocation failure while applying a function
 corrupted later applications

---
 src/carl/formula/uninterpreted/UFInstanceManager.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/uninterpreted/UFInstanceManager.cpp b/src/carl/formula/uninterpreted/UFInstanceManager.cpp
index e9657ac..f09e519 100644
--- a/src/carl/formula/uninterpreted/UFInstanceManager.cpp
+++ b/src/carl/formula/uninterpreted/UFInstanceManager.cpp
@@ -16,9 +16,14 @@ UFInstance UFInstanceManager::newUFInstance(std::unique_ptr<UFInstanceContent>&&
 		return UFInstance(iter->second);
 	}
 	// Create the uninterpreted function instance
-	mUFInstanceIdMap.emplace(ufic.get(), mUFInstances.size());
 	UFInstance ufi(mUFInstances.size());
 	mUFInstances.emplace_back(std::move(ufic));
+	try {
+		mUFInstanceIdMap.emplace(mUFInstances.back().get(), ufi.id());
+	} catch (...) {
+		mUFInstances.pop_back();
+		throw;
+	}
 	return ufi;
 }
 
-- 
2.43.0


From ba44cd23a6776e3b20b7ff8a3393e804a675bfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:31 +0000
Subject: [PATCH 028/149] fix: allocation failure while declaring a sort
 corrupted later declarations

---
 src/carl/formula/SortManager.cpp | 13 ++++++++++---
 src/carl/formula/SortManager.h   | 10 ++++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/carl/formula/SortManager.cpp b/src/carl/formula/SortManager.cpp
index efbdaf1..86182fd 100644
--- a/src/carl/formula/SortManager.cpp
+++ b/src/carl/formula/SortManager.cpp
@@ -53,14 +53,21 @@ Sort SortManager::replace(const Sort& sort, const std::map<std::string, Sort>& p
 
 bool SortManager::declare(const std::string& name, std::size_t arity) {
 	if (!isSymbolFree(name)) return false;
-	mDeclarations[name] = arity;
-	if (arity == 0) addSortContent(std::make_unique<SortContent>(name), VariableType::VT_UNINTERPRETED);
+	auto decl = mDeclarations.emplace(name, arity).first;
+	if (arity == 0) {
+		try {
+			addSortContent(std::make_unique<SortContent>(name), VariableType::VT_UNINTERPRETED);
+		} catch (...) {
+			mDeclarations.erase(decl);
+			throw;
+		}
+	}
 	return true;
 }
 
 bool SortManager::define(const std::string& name, const std::vector<std::string>& params, const Sort& sort) {
 	if (!isSymbolFree(name)) return false;
-	mDefinitions[name] = SortTemplate(params, sort);
+	mDefinitions.emplace(name, SortTemplate(params, sort));
 	return true;
 }
 
diff --git a/src/carl/formula/SortManager.h b/src/carl/formula/SortManager.h
index 6278d7d..895079a 100644
--- a/src/carl/formula/SortManager.h
+++ b/src/carl/formula/SortManager.h
@@ -158,8 +158,14 @@ private:
 
 	std::size_t addSortContent(std::unique_ptr<SortContent>&& content, VariableType type) {
 		mSorts.emplace_back(std::move(content));
-		mSortTypes.push_back(type);
-		mSortMap[mSorts.back().get()] = mSorts.size() - 1;
+		try {
+			mSortTypes.push_back(type);
+			mSortMap[mSorts.back().get()] = mSorts.size() - 1;
+		} catch (...) {
+			mSorts.pop_back();
+			mSortTypes.resize(mSorts.size());
+			throw;
+		}
 		return mSorts.size() - 1;
 	}
 
-- 
2.43.0


From c798269c0f3c2a17cca0d09365aea257aa6fcab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:31 +0000
Subject: [PATCH 029/149] fix: instantiating a sort definition dropped the
 indices of its result

---
 src/carl/formula/SortManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/SortManager.cpp b/src/carl/formula/SortManager.cpp
index 86182fd..9791eda 100644
--- a/src/carl/formula/SortManager.cpp
+++ b/src/carl/formula/SortManager.cpp
@@ -48,7 +48,8 @@ Sort SortManager::replace(const Sort& sort, const std::map<std::string, Sort>& p
 	v.reserve(sc.parameters->size());
 	for (const auto& sd : *sc.parameters)
 		v.push_back(replace(sd, parameters));
-	return getSort(std::make_unique<SortContent>(sc.name, std::move(v)), VariableType::VT_UNINTERPRETED);
+	Sort res = getSort(std::make_unique<SortContent>(sc.name, std::move(v)), VariableType::VT_UNINTERPRETED);
+	return (sc.indices == nullptr) ? res : index(res, *sc.indices);
 }
 
 bool SortManager::declare(const std::string& name, std::size_t arity) {
-- 
2.43.0


From c8554664f2da6153b5c84a955c93b9f0b36d0412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:31 +0000
Subject: [PATCH 030/149] fix: constant signed division of bit-vectors by zero

---
 src/carl/formula/bitvector/BVTermPool.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/carl/formula/bitvector/BVTermPool.cpp b/src/carl/formula/bitvector/BVTermPool.cpp
index 3f52409..a95bfdd 100644
--- a/src/carl/formula/bitvector/BVTermPool.cpp
+++ b/src/carl/formula/bitvector/BVTermPool.cpp
@@ -70,15 +70,12 @@ namespace carl
 					return create(BVTermType::CONSTANT, ~BVValue(_first.width(), 0));
 				case BVTermType::DIV_S:
 					if (_first.isConstant()) {
-						if (_first.value().isZero()) {
-							// Zero -> 1
-							return create(BVTermType::CONSTANT, BVValue(_first.width(), 1));
-						} else if (_first.value()[_first.width()-1]) {
+						if (_first.value()[_first.width()-1]) {
 							// Negative -> 1
 							return create(BVTermType::CONSTANT, BVValue(_first.width(), 1));
 						} else {
-							// Positive -> _first
-							return _first.mpContent;
+							// Zero or positive -> all ones
+							return create(BVTermType::CONSTANT, ~BVValue(_first.width(), 0));
 						}
 					}
 					break;
-- 
2.43.0


From 857e4a6dbebb0eada4c77a2789a09cde0bee50f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:31 +0000
Subject: [PATCH 031/149] fix: signed remainder of two negative bit-vectors

---
 src/carl/formula/bitvector/BVValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/formula/bitvector/BVValue.cpp b/src/carl/formula/bitvector/BVValue.cpp
index 4218f1e..3494a1c 100644
--- a/src/carl/formula/bitvector/BVValue.cpp
+++ b/src/carl/formula/bitvector/BVValue.cpp
@@ -83,7 +83,7 @@ BVValue BVValue::remSigned(const BVValue& _other) const {
 	} else if (!firstNegative && secondNegative) {
 		return (*this) % -_other;
 	} else {
-		return -((*this) % -_other);
+		return -(-(*this) % -_other);
 	}
 }
 
-- 
2.43.0


From 89f137ed1a426fc639790dadfbc837eb2dcf557f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:09:31 +0000
Subject: [PATCH 032/149] fix: signed modulo of a positive bit-vector by a
 negative one

---
 src/carl/formula/bitvector/BVValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/formula/bitvector/BVValue.cpp b/src/carl/formula/bitvector/BVValue.cpp
index 3494a1c..48873cd 100644
--- a/src/carl/formula/bitvector/BVValue.cpp
+++ b/src/carl/formula/bitvector/BVValue.cpp
@@ -105,7 +105,7 @@ BVValue BVValue::modSigned(const BVValue& _other) const {
 	} else if (firstNegative && !secondNegative) {
 		return -u + _other;
 	} else if (!firstNegative && secondNegative) {
-		return (*this) + _other;
+		return u + _other;
 	} else {
 		return -u;
 	}
-- 
2.43.0


From 0038d2c4c5be207e1f3cd302e6d9861447897769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:28 +0000
Subject: [PATCH 033/149] fix: absolute value of intervals with a negative part

---
 src/carl/interval/Interval.tpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 38cf2be..e26e1fd 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -723,11 +723,16 @@ void Interval<Number>::inverse_assign()
         {
             if(this->contains(carl::constant_zero<Number>().get()))
             {
-                Number max = mContent.upper() > mContent.lower() ? mContent.upper() : mContent.lower();
-                BoundType bt = mContent.upper() > mContent.lower() ? mUpperBoundType : mLowerBoundType;
+                if (mLowerBoundType == BoundType::INFTY || mUpperBoundType == BoundType::INFTY)
+                    return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, carl::constant_zero<Number>().get(), BoundType::INFTY );
+                Number negLower = -mContent.lower();
+                if (negLower == mContent.upper())
+                    return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, negLower, getWeakestBoundType(mLowerBoundType, mUpperBoundType) );
+                Number max = mContent.upper() > negLower ? mContent.upper() : negLower;
+                BoundType bt = mContent.upper() > negLower ? mUpperBoundType : mLowerBoundType;
                 return Interval<Number>( carl::constant_zero<Number>().get(), BoundType::WEAK, max, bt );
             }
-            else if( mContent.upper() < carl::constant_zero<Number>().get()) // interval is fully negative
+            else if( mUpperBoundType != BoundType::INFTY && mContent.upper() <= carl::constant_zero<Number>().get()) // interval is fully negative
             {
                 return Interval<Number>(-mContent.upper(), mUpperBoundType, -mContent.lower(), mLowerBoundType);
             }
-- 
2.43.0


From 2278f2c0c3c818118bb5af25ecac05b0ea54b7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:28 +0000
Subject: [PATCH 034/149] fix: product of intervals excluded an attained bound

---
 src/carl/interval/Interval.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index e26e1fd..5423687 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -442,6 +442,8 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
                     else
                     {
                         lowerBoundType = getStrictestBoundType(xlt, yut);
+                        if( lowerA == lowerB )
+                            lowerBoundType = getWeakestBoundType(lowerBoundType, getStrictestBoundType(xut, ylt));
                     }
                     Number upperA = rnd.mul_up(xl, yl);
                     Number upperB = rnd.mul_up(xu, yu);
@@ -453,6 +455,8 @@ Interval<Number> Interval<Number>::mul(const Interval<Number>& rhs) const
                     else
                     {
                         upperBoundType = getStrictestBoundType(xlt, ylt);
+                        if( upperA == upperB )
+                            upperBoundType = getWeakestBoundType(upperBoundType, getStrictestBoundType(xut, yut));
                     }
                     resultInterval = BoostInterval(lowerA, upperA, true);
                 }
-- 
2.43.0


From 9afdcf51ce6e3049824a21fbdd2455e770558b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:29 +0000
Subject: [PATCH 035/149] fix: reciprocal of half-bounded intervals was not
 rounded outwards

---
 src/carl/interval/Interval.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 5423687..5b486e0 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -795,7 +795,7 @@ bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) cons
         {
             if( mLowerBoundType == BoundType::INFTY && mContent.upper() != carl::constant_zero<Number>().get() )
             {
-                a = Interval<Number>(  carl::constant_one<Number>().get() / mContent.upper() , mUpperBoundType,carl::constant_zero<Number>().get(),  BoundType::WEAK );
+                a = Interval<Number>((BoostInterval( carl::constant_one<Number>().get() ) /BoostInterval( mContent.upper() )).lower(), mUpperBoundType, carl::constant_zero<Number>().get(), BoundType::WEAK );
             }
             else if( mLowerBoundType == BoundType::INFTY && mContent.upper() == carl::constant_zero<Number>().get() )
             {
@@ -803,7 +803,7 @@ bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) cons
             }
             else if( mUpperBoundType == BoundType::INFTY && mContent.lower() != carl::constant_zero<Number>().get() )
             {
-                a = Interval<Number>(  carl::constant_zero<Number>().get() , BoundType::WEAK, carl::constant_one<Number>().get()  /  mContent.lower(), mLowerBoundType );
+                a = Interval<Number>(carl::constant_zero<Number>().get(), BoundType::WEAK, (BoostInterval( carl::constant_one<Number>().get() ) /BoostInterval( mContent.lower() )).upper(), mLowerBoundType );
             }
             else if( mUpperBoundType == BoundType::INFTY && mContent.lower() == carl::constant_zero<Number>().get() )
             {
-- 
2.43.0


From 8a1abcc7f7d55bfc0add933ef0b2784a0ba35449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:29 +0000
Subject: [PATCH 036/149] fix: reciprocal of the unbounded interval was empty

---
 src/carl/interval/Interval.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 5b486e0..6584c04 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -754,7 +754,7 @@ template<typename Number>
 bool Interval<Number>::reciprocal(Interval<Number>& a, Interval<Number>& b) const {
         if( this->isInfinite() )
         {
-            a = emptyInterval();
+            a = unboundedInterval();
             return false;
         }
         else if( this->contains( carl::constant_zero<Number>().get() ) && mContent.lower() != carl::constant_zero<Number>().get() && mContent.upper() != carl::constant_zero<Number>().get() )
-- 
2.43.0


From 9ced79e47a8593d1698ec64d6d4782ec657b254d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:29 +0000
Subject: [PATCH 037/149] fix: division by half-bounded intervals

---
 src/carl/interval/Interval.tpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 6584c04..3c6b6df 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -609,6 +609,11 @@ Interval<Number> Interval<Number>::div(const Interval<Number>& rhs) const
 		assert(this->isConsistent());
 		assert(rhs.isConsistent());
 		assert(!rhs.contains(carl::constant_zero<Number>().get()));
+		if (rhs.isUnbounded()) {
+			Interval<Number> reciprocalA, reciprocalB;
+			rhs.reciprocal(reciprocalA, reciprocalB);
+			return this->mul(reciprocalA);
+		}
 		BoundType lowerBoundType = BoundType::WEAK;
         BoundType upperBoundType = BoundType::WEAK;
 		///@todo Correctly determine if bounds are strict or weak.
-- 
2.43.0


From 995f4c683e9109047ebcf1d787d435e145bba6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:29 +0000
Subject: [PATCH 038/149] fix: quotient of intervals excluded zero as attained
 bound

---
 src/carl/interval/Interval.tpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index 3c6b6df..d310ce9 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -621,6 +621,13 @@ Interval<Number> Interval<Number>::div(const Interval<Number>& rhs) const
 			// just a quick heuristic, by no means complete.
             lowerBoundType = BoundType::STRICT;
             upperBoundType = BoundType::STRICT;
+			if (this->contains(carl::constant_zero<Number>().get())) {
+				// Zero is attained as 0/y also if a bound of the result.
+				if (carl::isZero(mContent.lower()) || carl::isZero(mContent.upper())) {
+					lowerBoundType = BoundType::WEAK;
+					upperBoundType = BoundType::WEAK;
+				}
+			}
 		}
         const Number& xl = mContent.lower();
         const Number& yl = rhs.lower();
-- 
2.43.0


From 5c87e197bf1fca4a791983ddb5da421cae66897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:29 +0000
Subject: [PATCH 039/149] fix: multiplying an open interval by zero gave the
 empty interval

---
 src/carl/interval/operators.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl/interval/operators.h b/src/carl/interval/operators.h
index 19b6065..bec6cb9 100644
--- a/src/carl/interval/operators.h
+++ b/src/carl/interval/operators.h
@@ -395,7 +395,9 @@ inline Interval<Number> operator*(const Interval<Number>& lhs, const Interval<Nu
  */
 template<typename Number>
 inline Interval<Number> operator*(const Interval<Number>& lhs, const Number& rhs) {
-	if (rhs >= 0) {
+	if (carl::isZero(rhs)) {
+		return lhs.isEmpty() ? lhs : Interval<Number>(rhs);
+	} else if (rhs >= 0) {
 		return Interval<Number>(lhs.rContent() * rhs, lhs.lowerBoundType(), lhs.upperBoundType());
 	} else {
 		return Interval<Number>(lhs.rContent() * rhs, lhs.upperBoundType(), lhs.lowerBoundType());
-- 
2.43.0


From 00ce2c9fab7ed569db51ad87ec528c6cf6657e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:29 +0000
Subject: [PATCH 040/149] fix: scaling an interval in place by a negative
 number kept the bound types

---
 src/carl/interval/operators.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/carl/interval/operators.h b/src/carl/interval/operators.h
index bec6cb9..df14000 100644
--- a/src/carl/interval/operators.h
+++ b/src/carl/interval/operators.h
@@ -435,8 +435,7 @@ inline Interval<Number>& operator*=(Interval<Number>& lhs, const Interval<Number
  */
 template<typename Number>
 inline Interval<Number>& operator*=(Interval<Number>& lhs, const Number& rhs) {
-	lhs.rContent() *= rhs;
-	return lhs;
+	return lhs = lhs * rhs;
 }
 
 /**
-- 
2.43.0


From 85a8837d5ff2b53e58f9f87de36bdc7994a48188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:29 +0000
Subject: [PATCH 041/149] fix: even power of an interval excluded an attained
 bound

---
 src/carl/interval/power.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/interval/power.h b/src/carl/interval/power.h
index 81124d9..de70476 100644
--- a/src/carl/interval/power.h
+++ b/src/carl/interval/power.h
@@ -30,6 +30,8 @@ Interval<Number> pow(const Interval<Number>& i, Integer exp) {
 			BoundType lType = i.lowerBoundType();
 			if (carl::abs(i.lower()) > carl::abs(i.upper())) {
 				std::swap(lType, rType);
+			} else if (carl::abs(i.lower()) == carl::abs(i.upper())) {
+				rType = getWeakestBoundType(lType, rType);
 			}
 			if (i.contains(carl::constant_zero<Number>().get())) {
 				return Interval<Number>(boost::numeric::pow(i.rContent(), int(exp)), BoundType::WEAK, rType);
-- 
2.43.0


From f2c99e31a50cf30941e93d8a85b47315e0c06a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:29 +0000
Subject: [PATCH 042/149] fix: root of an interval left the rounding mode
 changed

---
 src/carl/interval/Interval.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index d310ce9..e06ed5b 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -843,6 +843,8 @@ template<typename Num, EnableIf<std::is_floating_point<Num>>>
 Interval<Number> Interval<Number>::root(int deg) const
 	{
 		assert(this->isConsistent());
+		// boost::numeric::nth_root does not restore the rounding mode.
+		typename BoostIntervalPolicies::rounding rnd;
         if( deg % 2 == 0 )
         {
             if( mUpperBoundType != BoundType::INFTY &&  mContent.upper() < carl::constant_zero<Number>().get() )
-- 
2.43.0


From 933d6c77773fdad2aad0a56ee1e9b0d08b713e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:15:29 +0000
Subject: [PATCH 043/149] fix: elementary functions of intervals were not
 rounded outwards

---
 src/carl/interval/Interval.h | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/carl/interval/Interval.h b/src/carl/interval/Interval.h
index 885befb..f07450e 100644
--- a/src/carl/interval/Interval.h
+++ b/src/carl/interval/Interval.h
@@ -64,6 +64,35 @@ namespace carl
     */
    template <class Number> struct is_interval<const carl::Interval<Number>> : std::true_type {};
 
+    /**
+     * Rounding policy for native double whose elementary functions round outwards.
+     * The math library is not correctly rounded, and its errors may even point in the
+     * wrong direction if a directed rounding mode is set. Hence we evaluate with
+     * rounding to nearest and widen the result by more than the possible error.
+     */
+    struct rounded_transc_outward : boost::numeric::interval_lib::rounded_arith_std<double>
+    {
+        template<typename Function>
+        double outward(Function function, double x, double direction)
+        {
+            this->to_nearest();
+            volatile double argument = x;
+            volatile double result = function(argument);
+            double bound = result;
+            for (int i = 0; i < 3; ++i) bound = std::nextafter(bound, direction);
+            return bound;
+        }
+#define CARL_OUTWARD(f) \
+        double f##_down(double x) { return outward([](double v) { return std::f(v); }, x, -std::numeric_limits<double>::infinity()); } \
+        double f##_up(double x) { return outward([](double v) { return std::f(v); }, x, std::numeric_limits<double>::infinity()); }
+        CARL_OUTWARD(exp) CARL_OUTWARD(log)
+        CARL_OUTWARD(sin) CARL_OUTWARD(cos) CARL_OUTWARD(tan)
+        CARL_OUTWARD(asin) CARL_OUTWARD(acos) CARL_OUTWARD(atan)
+        CARL_OUTWARD(sinh) CARL_OUTWARD(cosh) CARL_OUTWARD(tanh)
+        CARL_OUTWARD(asinh) CARL_OUTWARD(acosh) CARL_OUTWARD(atanh)
+#undef CARL_OUTWARD
+    };
+
     /**
      * Struct which holds the rounding and checking policies required for boost
      * interval.
@@ -83,7 +112,7 @@ namespace carl
     template<typename Interval>
     struct policies<double, Interval>
     {
-        using roundingP = boost::numeric::interval_lib::save_state<boost::numeric::interval_lib::rounded_transc_std<double> >; // TODO: change it to boost::numeric::interval_lib::rounded_transc_opp, if new boost release patches the bug with clang
+        using roundingP = boost::numeric::interval_lib::save_state<rounded_transc_outward>;
         using checkingP = boost::numeric::interval_lib::checking_no_nan<double, boost::numeric::interval_lib::checking_no_nan<double> >;
 		static void sanitize(Interval& n) {
 			if (std::isinf(n.lower())) {
-- 
2.43.0


From 8bfd7b147a64e66ed81f36ac52660bc50ed9307e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:59 +0000
Subject: [PATCH 044/149] fix: a zero generator does not turn a Groebner basis
 into the whole ring

---
 src/carl/groebner/gb-buchberger/Buchberger.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/groebner/gb-buchberger/Buchberger.tpp b/src/carl/groebner/gb-buchberger/Buchberger.tpp
index b7daad0..cb497cb 100644
--- a/src/carl/groebner/gb-buchberger/Buchberger.tpp
+++ b/src/carl/groebner/gb-buchberger/Buchberger.tpp
@@ -48,6 +48,8 @@ void Buchberger<Polynomial, AddingPolicy>::calculate(const std::list<Polynomial>
 	bool foundGB = false;
 	for(const Polynomial& newPol : scheduledForAdding)
 	{
+		// The zero polynomial is in every ideal.
+		if(isZero(newPol)) continue;
 		if(addToGb(newPol))
 		{
 			CARL_LOG_INFO("carl.gb.buchberger", "Added a constant polynomial.");
-- 
2.43.0


From 72bdbfd36667152fd805528aa979c5e7df80da28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:40:53 +0000
Subject: [PATCH 045/149] fix: the elements of a reduced Groebner basis are
 normalised

---
 src/carl/groebner/GBProcedure.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/groebner/GBProcedure.h b/src/carl/groebner/GBProcedure.h
index 2f2e50d..dbacde8 100644
--- a/src/carl/groebner/GBProcedure.h
+++ b/src/carl/groebner/GBProcedure.h
@@ -292,7 +292,7 @@ private:
 			Polynomial res = reduct.fullReduce();
             if(!isZero(res))
             {
-                res.normalize();
+                res = res.normalize();
                 CARL_LOG_DEBUG("carl.gb.gbproc", "GB Reduction, reduced " << mGb->getGenerator(*index) << " to " << res);
                 reduced->addGenerator(res);
             }
-- 
2.43.0


From 0067047d1e0e1cf1badab2b9de2805862821df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:31 +0000
Subject: [PATCH 046/149] fix: reducing the input of a Groebner basis accepts
 zero polynomials

---
 src/carl/groebner/GBProcedure.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/groebner/GBProcedure.h b/src/carl/groebner/GBProcedure.h
index dbacde8..ac76e43 100644
--- a/src/carl/groebner/GBProcedure.h
+++ b/src/carl/groebner/GBProcedure.h
@@ -220,7 +220,8 @@ public:
 		//We only schedule "new" input for reduction
 		for(typename std::list<Polynomial>::const_iterator it = mInputScheduled.begin(); it != mInputScheduled.end(); ++it)
 		{
-			toBeReduced.push_back(*it);
+			// The zero polynomial has no leading term and adds nothing.
+			if(!isZero(*it)) toBeReduced.push_back(*it);
 		}
 		std::sort(toBeReduced.begin(), toBeReduced.end(), Polynomial::compareByLeadingTerm);
 
-- 
2.43.0


From 384641c849023e0e360b88f704cde6cd67040307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:41:59 +0000
Subject: [PATCH 047/149] fix: generators that are not monic give the right
 Groebner basis

---
 src/carl/groebner/gb-buchberger/Buchberger.tpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/groebner/gb-buchberger/Buchberger.tpp b/src/carl/groebner/gb-buchberger/Buchberger.tpp
index cb497cb..f341a4e 100644
--- a/src/carl/groebner/gb-buchberger/Buchberger.tpp
+++ b/src/carl/groebner/gb-buchberger/Buchberger.tpp
@@ -50,7 +50,8 @@ void Buchberger<Polynomial, AddingPolicy>::calculate(const std::list<Polynomial>
 	{
 		// The zero polynomial is in every ideal.
 		if(isZero(newPol)) continue;
-		if(addToGb(newPol))
+		// S-polynomials are calculated on the assumption that all leading coefficients are one.
+		if(addToGb(newPol.normalize()))
 		{
 			CARL_LOG_INFO("carl.gb.buchberger", "Added a constant polynomial.");
 			foundGB = true;
-- 
2.43.0


From 2b58218d16ba3b74f821b75195b0849db635a008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:17 +0000
Subject: [PATCH 048/149] fix: a constant Groebner basis can be extended

---
 src/carl/groebner/gb-buchberger/Buchberger.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/groebner/gb-buchberger/Buchberger.tpp b/src/carl/groebner/gb-buchberger/Buchberger.tpp
index f341a4e..34bed0f 100644
--- a/src/carl/groebner/gb-buchberger/Buchberger.tpp
+++ b/src/carl/groebner/gb-buchberger/Buchberger.tpp
@@ -40,6 +40,8 @@ template<class Polynomial, template<typename> class AddingPolicy>
 void Buchberger<Polynomial, AddingPolicy>::calculate(const std::list<Polynomial>& scheduledForAdding)
 {
 	CARL_LOG_INFO("carl.gb.buchberger", "Calculate gb");
+	// Nothing can be added to the whole ring.
+	if(pGb->isConstant()) return;
 	for(unsigned i = 0; i < pGb->getGenerators().size(); ++i)
 	{
 		mGbElementsIndices.push_back(i);
@@ -101,6 +103,8 @@ void Buchberger<Polynomial, AddingPolicy>::calculate(const std::list<Polynomial>
 			}
 		}
 	}
+	// Pairs that are left over if a constant has been found refer to generators that are gone.
+	while(!pCritPairs->empty()) pCritPairs->pop();
 	mGbElementsIndices.clear();
 }
 
-- 
2.43.0


From 3b3c97e4aca0dd4fce5a30bbd21ceed3f78fe8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:50 +0000
Subject: [PATCH 049/149] fix: an assigned Groebner procedure has critical
 pairs of its own

---
 src/carl/groebner/gb-buchberger/Buchberger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/groebner/gb-buchberger/Buchberger.h b/src/carl/groebner/gb-buchberger/Buchberger.h
index d355ec7..3017c45 100644
--- a/src/carl/groebner/gb-buchberger/Buchberger.h
+++ b/src/carl/groebner/gb-buchberger/Buchberger.h
@@ -119,7 +119,7 @@ public:
 	}
 	void setCriticalPairs(const std::shared_ptr<CritPairs>& criticalPairs)
 	{
-		pCritPairs = criticalPairs;
+		pCritPairs.reset(new CritPairs(*criticalPairs));
 	}
 
 	//std::list<std::pair<BitVector, BitVector> > reduceInput();
-- 
2.43.0


From 47d5e5af91172571b83a47eb6b3e1c6a1e6c966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:45:02 +0000
Subject: [PATCH 050/149] fix: an ideal can be used for reductions after
 eliminated generators are removed

---
 src/carl/groebner/Ideal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/groebner/Ideal.h b/src/carl/groebner/Ideal.h
index 1ead321..8d96bad 100644
--- a/src/carl/groebner/Ideal.h
+++ b/src/carl/groebner/Ideal.h
@@ -139,7 +139,7 @@ public:
         }
         tempGen.swap(mGenerators);
         mEliminated.clear();
-
+        mDivisorLookup.reset();
     }
 	
 	void clear()
-- 
2.43.0


From f743f1d4c36a883b7951b0b3e52d442a6989856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:59 +0000
Subject: [PATCH 051/149] fix: substitution in formulas with bit-vector
 constraints or uninterpreted equalities

---
 src/carl/formula/Formula.tpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/carl/formula/Formula.tpp b/src/carl/formula/Formula.tpp
index 05d038d..c9564dc 100644
--- a/src/carl/formula/Formula.tpp
+++ b/src/carl/formula/Formula.tpp
@@ -501,6 +501,12 @@ namespace carl
                 }
                 return *this;
             }
+            case FormulaType::BITVECTOR:
+            case FormulaType::UEQ:
+            {
+                // Contains neither Boolean nor arithmetic variables.
+                return *this;
+            }
             case FormulaType::CONSTRAINT:
             {
                 Pol lhsSubstituted = carl::substitute(constraint().lhs(), _arithmeticSubstitutions);
-- 
2.43.0


From 2f92dfc24aaadfd684a1d54b321f1c6e1501f812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:52 +0000
Subject: [PATCH 052/149] fix: equivalence of a constant and several formulas

---
 src/carl/formula/FormulaPool.tpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/carl/formula/FormulaPool.tpp b/src/carl/formula/FormulaPool.tpp
index 7dd3451..e2be6d9 100644
--- a/src/carl/formula/FormulaPool.tpp
+++ b/src/carl/formula/FormulaPool.tpp
@@ -254,6 +254,16 @@ namespace carl
                 return trueFormula();
             return falseFormula();
         }
+        if( _type == FormulaType::IFF && (_subformulas[0].isTrue() || _subformulas[0].isFalse()) )
+        {
+            // All sub-formulas have to be equal to the constant.
+            if( negateResult )
+            {
+                for( auto& f : subformulas )
+                    f = f.negated();
+            }
+            return createNAry( FormulaType::AND, std::move( subformulas ) );
+        }
         const FormulaContent<Pol>* result;
         if( subformulas.size() == 1 )
         {
-- 
2.43.0


From e29b57be04fac9e0611cabd733cedcb7d5ad466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:50:21 +0000
Subject: [PATCH 053/149] fix: a failed creation of a formula does not leave it
 in the pool without a negation

---
 src/carl/formula/FormulaPool.tpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/FormulaPool.tpp b/src/carl/formula/FormulaPool.tpp
index e2be6d9..8942f39 100644
--- a/src/carl/formula/FormulaPool.tpp
+++ b/src/carl/formula/FormulaPool.tpp
@@ -71,7 +71,18 @@ namespace carl
             _element->mId = mIdAllocator; 
             Formula<Pol>::init( *_element );
             ++mIdAllocator;
-            auto negation = createNegatedContent(_element);
+            FormulaContent<Pol>* negation = nullptr;
+            try
+            {
+                negation = createNegatedContent(_element);
+            }
+            catch( ... )
+            {
+                // A formula without its negation must not stay in the pool.
+                mPool.erase( iterBoolPair.first );
+                delete _element;
+                throw;
+            }
 			assert(mPool.find(negation) == mPool.end());
 			//auto negation = new FormulaContent<Pol>(NOT, std::move( Formula<Pol>( *iterBoolPair.first ) ) );
             _element->mNegation = negation;
-- 
2.43.0


From 93080c69c83e96ea822be0fa2b6762b6709889c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:08 +0000
Subject: [PATCH 054/149] fix: variables for formulas are created under the
 lock of the pool

---
 src/carl/formula/FormulaPool.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/carl/formula/FormulaPool.h b/src/carl/formula/FormulaPool.h
index 4d12b02..951dd04 100644
--- a/src/carl/formula/FormulaPool.h
+++ b/src/carl/formula/FormulaPool.h
@@ -110,6 +110,7 @@ namespace carl
 
             Formula<Pol> getTseitinVar( const Formula<Pol>& _formula )
             {
+                FORMULA_POOL_LOCK_GUARD
                 auto iter = mTseitinVars.find( _formula.mpContent );
                 if( iter != mTseitinVars.end() )
                 {
@@ -120,13 +121,23 @@ namespace carl
 
             Formula<Pol> createTseitinVar( const Formula<Pol>& _formula )
             {
+                FORMULA_POOL_LOCK_GUARD
                 auto iter = mTseitinVars.insert( std::make_pair( _formula.mpContent, nullptr ) );
                 if( iter.second )
                 {
-                    const FormulaContent<Pol>* hi = create( carl::freshBooleanVariable() );
-                    hi->mDifficulty = _formula.difficulty();
-                    iter.first->second = hi;
-                    mTseitinVarToFormula[hi] = iter.first;
+                    try
+                    {
+                        Formula<Pol> var( carl::freshBooleanVariable() );
+                        mTseitinVarToFormula[var.mpContent] = iter.first;
+                        var.mpContent->mDifficulty = _formula.difficulty();
+                        iter.first->second = var.mpContent;
+                        return var;
+                    }
+                    catch( ... )
+                    {
+                        mTseitinVars.erase( iter.first );
+                        throw;
+                    }
                 }
                 return Formula<Pol>( iter.first->second );
             }
-- 
2.43.0


From a35776aaef0352995e7caaa8d85bbe5d522016b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:24 +0000
Subject: [PATCH 055/149] fix: a formula is kept while any variable introduced
 for it is used

---
 src/carl/formula/FormulaPool.h | 99 ++++++++++++++++------------------
 1 file changed, 45 insertions(+), 54 deletions(-)

diff --git a/src/carl/formula/FormulaPool.h b/src/carl/formula/FormulaPool.h
index 951dd04..c4d462a 100644
--- a/src/carl/formula/FormulaPool.h
+++ b/src/carl/formula/FormulaPool.h
@@ -470,68 +470,59 @@ namespace carl
                 if( tmp->mUsages == 1 )
                 {
 					CARL_LOG_DEBUG("carl.formula", "Actually freeing " << *tmp << " from pool");
-                    bool stillStoredAsTseitinVariable = false;
-                    if( freeTseitinVariable( tmp ) )
-                        stillStoredAsTseitinVariable = true;
-                    if( freeTseitinVariable( tmp->mNegation ) )
-                        stillStoredAsTseitinVariable = true;
-                    if( !stillStoredAsTseitinVariable )
-                    {
-						CARL_LOG_TRACE("carl.formula", "Deleting " << tmp << " / " << tmp->mNegation << " from pool");
-                        mPool.erase( tmp->mNegation );
-						mPool.erase( tmp );
-                        delete tmp->mNegation;
-                        delete tmp;
-                    }
+                    // A formula and the Tseitin variables related to it are kept as long as one of them is used.
+                    if( !usedWithTseitinVariables( tmp, nullptr ) )
+                        deleteWithTseitinVariables( tmp );
                 }
             }
 
-            bool freeTseitinVariable( const FormulaContent<Pol>* _toDelete )
+            /**
+             * Checks whether the given formula or any formula related to it by Tseitin variables is used.
+             * @param _elem The base formula to check.
+             * @param _from The related formula, which has already been checked.
+             */
+            bool usedWithTseitinVariables( const FormulaContent<Pol>* _elem, const FormulaContent<Pol>* _from ) const
             {
-                bool stillStoredAsTseitinVariable = false;
-                auto tvIter = mTseitinVars.find( _toDelete );
-                if( tvIter != mTseitinVars.end() )
+                if( _elem->mUsages > 1 ) return true;
+                for( const FormulaContent<Pol>* f : { _elem, _elem->mNegation } )
                 {
-                    // if this formula HAS a tseitin variable
-                    if( tvIter->second->mUsages == 1 )
-                    {
-                        // the tseitin variable is not used -> delete it
-                        const FormulaContent<Pol>* tmp = tvIter->second;
-                        mTseitinVars.erase( tvIter );
-                        assert( mTseitinVarToFormula.find( tmp ) != mTseitinVarToFormula.end() );
-                        mTseitinVarToFormula.erase( tmp );
-						CARL_LOG_TRACE("carl.formula", "Deleting " << static_cast<const void*>(tmp) << " / " << static_cast<const void*>(tmp->mNegation) << " from pool");
-                        mPool.erase( tmp );
-                        delete tmp->mNegation;
-                        delete tmp;
-                    }
-                    else // the tseitin variable is used, so we cannot delete the formula
-                        stillStoredAsTseitinVariable = true;
+                    auto iter = mTseitinVars.find( f );
+                    if( iter != mTseitinVars.end() && iter->second != _from && usedWithTseitinVariables( iter->second, _elem ) )
+                        return true;
                 }
-                else
+                auto iter = mTseitinVarToFormula.find( _elem );
+                if( iter == mTseitinVarToFormula.end() ) return false;
+                const FormulaContent<Pol>* formula = getBaseFormula( iter->second->first );
+                return formula != _from && usedWithTseitinVariables( formula, _elem );
+            }
+
+            /**
+             * Deletes the given formula and all formulas related to it by Tseitin variables.
+             * @param _elem The base formula to delete.
+             */
+            void deleteWithTseitinVariables( const FormulaContent<Pol>* _elem )
+            {
+                for( const FormulaContent<Pol>* f : { _elem, _elem->mNegation } )
                 {
-                    auto tmpTVIter = mTseitinVarToFormula.find( _toDelete );
-                    if( tmpTVIter != mTseitinVarToFormula.end() )
-                    {
-                        const FormulaContent<Pol>* fcont = tmpTVIter->second->first;
-                        // if this formula IS a tseitin variable
-                        if( fcont->mUsages == 1 )
-                        {
-                            // the formula variable is not used -> delete it
-                            const FormulaContent<Pol>* tmp = getBaseFormula(fcont);
-                            //const FormulaContent<Pol>* tmp = fcont->mType == FormulaType::NOT ? fcont->mNegation : fcont;
-                            mTseitinVars.erase( tmpTVIter->second );
-                            mTseitinVarToFormula.erase( tmpTVIter );
-							CARL_LOG_TRACE("carl.formula", "Deleting " << static_cast<const void*>(tmp) << " / " << static_cast<const void*>(tmp->mNegation) << " from pool");
-                            mPool.erase( tmp );
-                            delete tmp->mNegation;
-                            delete tmp;
-                        }
-                        else // the formula is used, so we cannot delete the tseitin variable
-                            stillStoredAsTseitinVariable = true;
-                    }
+                    auto iter = mTseitinVars.find( f );
+                    if( iter == mTseitinVars.end() ) continue;
+                    const FormulaContent<Pol>* var = iter->second;
+                    mTseitinVarToFormula.erase( var );
+                    mTseitinVars.erase( iter );
+                    deleteWithTseitinVariables( var );
+                }
+                auto iter = mTseitinVarToFormula.find( _elem );
+                if( iter != mTseitinVarToFormula.end() )
+                {
+                    const FormulaContent<Pol>* formula = getBaseFormula( iter->second->first );
+                    mTseitinVars.erase( iter->second );
+                    mTseitinVarToFormula.erase( iter );
+                    deleteWithTseitinVariables( formula );
                 }
-                return stillStoredAsTseitinVariable;
+                CARL_LOG_TRACE("carl.formula", "Deleting " << static_cast<const void*>(_elem) << " / " << static_cast<const void*>(_elem->mNegation) << " from pool");
+                mPool.erase( _elem );
+                delete _elem->mNegation;
+                delete _elem;
             }
 
             void reg( const FormulaContent<Pol>* _elem ) const
-- 
2.43.0


From 548642d35fa7ece13ceedf5cac35364772d35952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:30 +0000
Subject: [PATCH 056/149] fix: a negated quantifier can be resolved

---
 src/carl/formula/Formula.tpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/carl/formula/Formula.tpp b/src/carl/formula/Formula.tpp
index c9564dc..dff9607 100644
--- a/src/carl/formula/Formula.tpp
+++ b/src/carl/formula/Formula.tpp
@@ -441,11 +441,9 @@ namespace carl
                 newType = FormulaType::AND;
                 break;
             case FormulaType::EXISTS: // (not (exists (vars) phi)) -> (forall (vars) (not phi))
-                newType = FormulaType::FORALL;
-                break;
+                return Formula<Pol>( FormulaType::FORALL, subformula().quantifiedVariables(), Formula<Pol>( NOT, subformula().quantifiedFormula() ) );
             case FormulaType::FORALL: // (not (forall (vars) phi)) -> (exists (vars) (not phi))
-                newType = FormulaType::EXISTS;
-                break;
+                return Formula<Pol>( FormulaType::EXISTS, subformula().quantifiedVariables(), Formula<Pol>( NOT, subformula().quantifiedFormula() ) );
             default:
                 assert( false );
                 std::cerr << "Unexpected type of formula!" << std::endl;
-- 
2.43.0


From 138d79cb2b73b8c397b021426e844f05a9a301a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:07 +0000
Subject: [PATCH 057/149] fix: a formula found in the pool is not freed before
 it is registered

---
 src/carl/formula/Formula.h     | 42 +++++++++++++++++-----------------
 src/carl/formula/FormulaPool.h | 32 ++++++++++++++++++++++++++
 2 files changed, 53 insertions(+), 21 deletions(-)

diff --git a/src/carl/formula/Formula.h b/src/carl/formula/Formula.h
index d34b035..233e7d4 100644
--- a/src/carl/formula/Formula.h
+++ b/src/carl/formula/Formula.h
@@ -95,80 +95,80 @@ namespace carl
             static void init( FormulaContent<Pol>& _content );
 
             explicit Formula( FormulaType _type = FALSE ):
-                Formula( FormulaPool<Pol>::getInstance().create( _type ) )
+                Formula( FormulaPool<Pol>::locked()->create( _type ) )
             {}
 
             explicit Formula( Variable::Arg _booleanVar ):
-                Formula( FormulaPool<Pol>::getInstance().create( _booleanVar ) )
+                Formula( FormulaPool<Pol>::locked()->create( _booleanVar ) )
             {}
 
             explicit Formula( const Pol& _pol, Relation _rel ):
-                Formula( FormulaPool<Pol>::getInstance().create( Constraint<Pol>( _pol, _rel ) ) )
+                Formula( FormulaPool<Pol>::locked()->create( Constraint<Pol>( _pol, _rel ) ) )
             {}
 
             explicit Formula( const Constraint<Pol>& _constraint ):
-                Formula( FormulaPool<Pol>::getInstance().create( _constraint ) )
+                Formula( FormulaPool<Pol>::locked()->create( _constraint ) )
             {}
 
 			explicit Formula( const VariableComparison<Pol>& _variableComparison ):
-				Formula( FormulaPool<Pol>::getInstance().create( _variableComparison ) )
+				Formula( FormulaPool<Pol>::locked()->create( _variableComparison ) )
 			{}
 
 			explicit Formula( const VariableAssignment<Pol>& _variableAssignment ):
-				Formula( FormulaPool<Pol>::getInstance().create( _variableAssignment ) )
+				Formula( FormulaPool<Pol>::locked()->create( _variableAssignment ) )
 			{}
 
             explicit Formula( const BVConstraint& _constraint ):
-                Formula( FormulaPool<Pol>::getInstance().create( _constraint ) )
+                Formula( FormulaPool<Pol>::locked()->create( _constraint ) )
             {}
 
             explicit Formula( FormulaType _type, Formula&& _subformula ):
-                Formula(FormulaPool<Pol>::getInstance().create(_type, std::move(_subformula)))
+                Formula(FormulaPool<Pol>::locked()->create(_type, std::move(_subformula)))
             {}
 
             explicit Formula( FormulaType _type, const Formula& _subformula ):
-                Formula(FormulaPool<Pol>::getInstance().create(_type, std::move(Formula(_subformula))))
+                Formula(FormulaPool<Pol>::locked()->create(_type, std::move(Formula(_subformula))))
             {}
 
             explicit Formula( FormulaType _type, const Formula& _subformulaA, const Formula& _subformulaB ):
-                Formula( FormulaPool<Pol>::getInstance().create( _type, {_subformulaA, _subformulaB} ))
+                Formula( FormulaPool<Pol>::locked()->create( _type, {_subformulaA, _subformulaB} ))
             {
                 assert( _type == FormulaType::AND || _type == FormulaType::IFF || _type == FormulaType::IMPLIES || _type == FormulaType::OR || _type == FormulaType::XOR );
             }
 
             explicit Formula( FormulaType _type, const Formula& _subformulaA, const Formula& _subformulaB, const Formula& _subformulaC):
-                Formula( FormulaPool<Pol>::getInstance().create(_type, {_subformulaA, _subformulaB, _subformulaC}))
+                Formula( FormulaPool<Pol>::locked()->create(_type, {_subformulaA, _subformulaB, _subformulaC}))
             {}
 
             explicit Formula( FormulaType _type, const FormulasMulti<Pol>& _subformulas ):
-                Formula( FormulaPool<Pol>::getInstance().create( _subformulas ) )
+                Formula( FormulaPool<Pol>::locked()->create( _subformulas ) )
             {
                 assert( _type == FormulaType::XOR );
             }
 
             explicit Formula( FormulaType _type, const Formulas<Pol>& _subasts ):
-                Formula( FormulaPool<Pol>::getInstance().create( _type, _subasts ) )
+                Formula( FormulaPool<Pol>::locked()->create( _type, _subasts ) )
             {}
 
             explicit Formula( FormulaType _type, Formulas<Pol>&& _subasts ):
-                Formula( FormulaPool<Pol>::getInstance().create( _type, std::move(_subasts) ) )
+                Formula( FormulaPool<Pol>::locked()->create( _type, std::move(_subasts) ) )
             {}
 
             explicit Formula( FormulaType _type, const std::initializer_list<Formula<Pol>>& _subasts ):
-                Formula( FormulaPool<Pol>::getInstance().create( _type, std::move(Formulas<Pol>(_subasts.begin(), _subasts.end()) ) ))
+                Formula( FormulaPool<Pol>::locked()->create( _type, std::move(Formulas<Pol>(_subasts.begin(), _subasts.end()) ) ))
             {}
 
             explicit Formula( FormulaType _type, const FormulaSet<Pol>& _subasts ):
-                Formula( FormulaPool<Pol>::getInstance().create( _type, std::move(Formulas<Pol>(_subasts.begin(), _subasts.end()) ) ))
+                Formula( FormulaPool<Pol>::locked()->create( _type, std::move(Formulas<Pol>(_subasts.begin(), _subasts.end()) ) ))
             {}
 
             // TODO: Does the following constructor anything more efficient than the one before?
             explicit Formula( FormulaType _type, FormulaSet<Pol>&& _subasts ):
-                Formula( FormulaPool<Pol>::getInstance().create( _type, std::move(Formulas<Pol>(_subasts.begin(), _subasts.end()) ) ))
+                Formula( FormulaPool<Pol>::locked()->create( _type, std::move(Formulas<Pol>(_subasts.begin(), _subasts.end()) ) ))
             {}
 
             explicit Formula( FormulaType _type, std::vector<Variable>&& _vars, const Formula& _term ):
-                Formula( FormulaPool<Pol>::getInstance().create( _type, std::move( _vars ), _term ) )
+                Formula( FormulaPool<Pol>::locked()->create( _type, std::move( _vars ), _term ) )
             {}
 
             explicit Formula( FormulaType _type, const std::vector<Variable>& _vars, const Formula& _term ):
@@ -176,15 +176,15 @@ namespace carl
             {}
 
             explicit Formula( const UTerm& _lhs, const UTerm& _rhs, bool _negated ):
-                Formula( FormulaPool<Pol>::getInstance().create( _lhs, _rhs, _negated ) )
+                Formula( FormulaPool<Pol>::locked()->create( _lhs, _rhs, _negated ) )
             {}
 
             explicit Formula( UEquality&& _eq ):
-                Formula( FormulaPool<Pol>::getInstance().create( std::move( _eq ) ) )
+                Formula( FormulaPool<Pol>::locked()->create( std::move( _eq ) ) )
             {}
 
             explicit Formula( const UEquality& _eq ):
-                Formula( FormulaPool<Pol>::getInstance().create( std::move( UEquality( _eq ) ) ) )
+                Formula( FormulaPool<Pol>::locked()->create( std::move( UEquality( _eq ) ) ) )
             {}
 
             Formula( const Formula& _formula ):
diff --git a/src/carl/formula/FormulaPool.h b/src/carl/formula/FormulaPool.h
index c4d462a..a8573a7 100644
--- a/src/carl/formula/FormulaPool.h
+++ b/src/carl/formula/FormulaPool.h
@@ -56,6 +56,38 @@ namespace carl
             #define FORMULA_POOL_UNLOCK
             #endif
 
+            /**
+             * Gives access to the pool and holds its lock meanwhile.
+             */
+            class Locked
+            {
+                private:
+                    FormulaPool& mFormulaPool;
+                    #ifdef THREAD_SAFE
+                    std::lock_guard<std::recursive_mutex> mLock;
+                    #endif
+                public:
+                    explicit Locked( FormulaPool& _pool ):
+                        mFormulaPool( _pool )
+                        #ifdef THREAD_SAFE
+                        , mLock( _pool.mMutexPool )
+                        #endif
+                    {}
+                    FormulaPool* operator->() const
+                    {
+                        return &mFormulaPool;
+                    }
+            };
+
+            /**
+             * @return Access to the pool, which is locked until the end of the calling expression. A formula content, which the pool
+             *         returns, is not freed before a formula has been constructed from it within this expression.
+             */
+            static Locked locked()
+            {
+                return Locked( FormulaPool::getInstance() );
+            }
+
         protected:
 
             /**
-- 
2.43.0


From b7b877267875f2ac4d6dab71fa79b13f04fb9154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:56:15 +0000
Subject: [PATCH 058/149] fix: conversion to CNF with implications for new
 variables terminates

---
 src/carl/formula/helpers/to_cnf.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/helpers/to_cnf.h b/src/carl/formula/helpers/to_cnf.h
index 00eb4cb..bc9b001 100644
--- a/src/carl/formula/helpers/to_cnf.h
+++ b/src/carl/formula/helpers/to_cnf.h
@@ -127,7 +127,10 @@ Formula<Poly> to_cnf_or(const Formula<Poly>& f, bool keep_constraints, bool simp
 				if (tseitin_equivalence) {
 					tseitin.emplace_back(Formula<Poly>(FormulaType::IFF, { tseitinVar, current }));
 				} else {
-					tseitin.emplace_back(Formula<Poly>(FormulaType::IMPLIES, { tseitinVar, current }));
+					// (=> T (and A ...)) -> (or (not T) A), ...
+					for (const auto& sub: current.subformulas()) {
+						tseitin.emplace_back(Formula<Poly>(FormulaType::OR, { !tseitinVar, sub }));
+					}
 				}
 				subformulas.emplace_back(tseitinVar);
 				break;
-- 
2.43.0


From 5626356f9703d1fad883c351d09aacab4c30ba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:57:03 +0000
Subject: [PATCH 059/149] fix: a formula whose properties cannot be computed
 does not stay in the pool

---
 src/carl/formula/FormulaPool.tpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/carl/formula/FormulaPool.tpp b/src/carl/formula/FormulaPool.tpp
index 8942f39..9e7ddbe 100644
--- a/src/carl/formula/FormulaPool.tpp
+++ b/src/carl/formula/FormulaPool.tpp
@@ -69,26 +69,27 @@ namespace carl
             // has the next id and hence would occur next to the formula in a set of sub-formula,
             // which is sorted by the ids.
             _element->mId = mIdAllocator; 
-            Formula<Pol>::init( *_element );
-            ++mIdAllocator;
             FormulaContent<Pol>* negation = nullptr;
             try
             {
+                Formula<Pol>::init( *_element );
                 negation = createNegatedContent(_element);
+                Formula<Pol>::init( *negation );
             }
             catch( ... )
             {
                 // A formula without its negation must not stay in the pool.
                 mPool.erase( iterBoolPair.first );
+                delete negation;
                 delete _element;
                 throw;
             }
+            ++mIdAllocator;
 			assert(mPool.find(negation) == mPool.end());
 			//auto negation = new FormulaContent<Pol>(NOT, std::move( Formula<Pol>( *iterBoolPair.first ) ) );
             _element->mNegation = negation;
             negation->mId = mIdAllocator; 
             negation->mNegation = _element;
-            Formula<Pol>::init( *negation );
             ++mIdAllocator;
 			CARL_LOG_DEBUG("carl.formula", "Added " << _element << " / " << negation << " to pool");
         } else {
-- 
2.43.0


From 4be7abfd2ce0aa007767369bb06c247501345b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:31 +0000
Subject: [PATCH 060/149] fix: the conclusion of an implication without
 premises is not freed

---
 src/carl/formula/FormulaPool.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/formula/FormulaPool.tpp b/src/carl/formula/FormulaPool.tpp
index 9e7ddbe..3f0554d 100644
--- a/src/carl/formula/FormulaPool.tpp
+++ b/src/carl/formula/FormulaPool.tpp
@@ -138,6 +138,8 @@ namespace carl
         }
         #endif
         if (_subformulas.empty()) {
+            // Keeps the conclusion alive until the caller has registered it.
+            _subformulas.push_back(conclusion);
             return conclusion.mpContent;
         }
         Formula<Pol> premise(AND, std::move(_subformulas));
-- 
2.43.0


From c6377bc984ecbda769dda782ad33b46282d721dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:00:17 +0000
Subject: [PATCH 061/149] fix: combining bounds of a disjunction keeps its
 meaning

---
 src/carl/formula/Formula.tpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/carl/formula/Formula.tpp b/src/carl/formula/Formula.tpp
index dff9607..525de1b 100644
--- a/src/carl/formula/Formula.tpp
+++ b/src/carl/formula/Formula.tpp
@@ -698,7 +698,7 @@ namespace carl
                         case Relation::GREATER:
                             resB.first->second.first = Relation::GEQ;
                             resB.first->second.second = _constraint;
-                            return Formula( FormulaType::FALSE );
+                            return resB.first->second.second;
                         default:
                             assert( resB.first->second.first == Relation::NEQ );
                             return Formula( FormulaType::FALSE );
@@ -828,9 +828,13 @@ namespace carl
                         case Relation::GEQ:
                             return Formula( FormulaType::FALSE );
                         case Relation::LESS:
+                            resB.first->second.first = Relation::NEQ;
+                            resB.first->second.second = _constraint;
                             return resB.first->second.second;
                         default:
                             assert( resB.first->second.first == Relation::GREATER );
+                            resB.first->second.first = Relation::NEQ;
+                            resB.first->second.second = _constraint;
                             return resB.first->second.second;
                     }
                 }
-- 
2.43.0


From 2c8f4ca31bcb21d6dca3073d79246ea7bd027f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:42 +0000
Subject: [PATCH 062/149] fix: a constraint and its negation are one formula in
 the pool

---
 src/carl/formula/FormulaPool.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/carl/formula/FormulaPool.h b/src/carl/formula/FormulaPool.h
index a8573a7..1c9a397 100644
--- a/src/carl/formula/FormulaPool.h
+++ b/src/carl/formula/FormulaPool.h
@@ -272,10 +272,18 @@ namespace carl
                     default: ;
                 }
                 #endif
-                if (isBaseFormula(_constraint)) {
-                    return add(new FormulaContent<Pol>(std::move(_constraint)));
+                // Negating a constraint may simplify it, hence take the constraint which is the negation of its negation.
+                // Both are kept until the formula exists, such that the order of them, which defines the base formula, does not change.
+                const Constraint<Pol> negation = _constraint.negation();
+                const Constraint<Pol> constraint = negation.negation();
+                #ifdef SIMPLIFY_FORMULA
+                if (negation.isConsistent() != 2) return negation.isConsistent() == 1 ? falseFormula() : trueFormula();
+                if (constraint.isConsistent() != 2) return constraint.isConsistent() == 1 ? trueFormula() : falseFormula();
+                #endif
+                if (constraint < negation) {
+                    return add(new FormulaContent<Pol>(Constraint<Pol>(constraint)));
                 } else {
-                    return add(new FormulaContent<Pol>(_constraint.negation()))->mNegation;
+                    return add(new FormulaContent<Pol>(Constraint<Pol>(negation)))->mNegation;
                 }
             }
             const FormulaContent<Pol>* create(const Constraint<Pol>& _constraint) {
-- 
2.43.0


From 9505287e60c6a8cdcfab176ae9d9328295501684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:17:30 +0000
Subject: [PATCH 063/149] fix: determine the sign of a polynomial at a rational
 real algebraic number

The number was assumed to have a defining polynomial, which numbers that are
known to be rational do not have.
---
 src/carl/ran/interval/ran_interval.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/ran/interval/ran_interval.h b/src/carl/ran/interval/ran_interval.h
index 0da32d2..4e1bdb4 100644
--- a/src/carl/ran/interval/ran_interval.h
+++ b/src/carl/ran/interval/ran_interval.h
@@ -278,6 +278,7 @@ public:
 	}
 
 	Sign sgn(const Polynomial& p) const {
+		if (is_numeric()) return carl::sgn(carl::evaluate(p, value()));
 		Polynomial tmp = replaceVariable(p);
 		if (polynomial_int() == tmp) return Sign::ZERO;
 		auto seq = carl::sturm_sequence(polynomial_int(), derivative(polynomial_int()) * tmp);
-- 
2.43.0


From ad85f957cf721d54fdbaac7c576c7e1546f22831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:09 +0000
Subject: [PATCH 064/149] fix: respect the given interval when isolating roots
 of low-degree polynomials

The roots of linear and quadratic polynomials are computed directly and all of
them were returned, whether or not they lie in the interval.
---
 src/carl/ran/interval/RealRootIsolation.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/carl/ran/interval/RealRootIsolation.h b/src/carl/ran/interval/RealRootIsolation.h
index 6a100b9..89f253c 100644
--- a/src/carl/ran/interval/RealRootIsolation.h
+++ b/src/carl/ran/interval/RealRootIsolation.h
@@ -114,12 +114,13 @@ class RealRootIsolation {
 	void add_trivial_root(const Number& n) {
 		CARL_LOG_TRACE("carl.ran.realroots", "Add trivial root " << n);
 		assert(carl::is_root_of(mPolynomial, n));
-		mRoots.emplace_back(n);
+		if (mInterval.contains(n)) mRoots.emplace_back(n);
 	}
 
 	void add_trivial_root(const Interval<Number>& i) {
 		CARL_LOG_TRACE("carl.ran.realroots", "Add trivial root " << i);
-		mRoots.emplace_back(mPolynomial, i);
+		real_algebraic_number_interval<Number> root(mPolynomial, i);
+		if (root.contained_in(mInterval)) mRoots.emplace_back(std::move(root));
 	}
 
 	/// Use root bounds to shrink mInterval.
-- 
2.43.0


From 4414f7836665c9d34760c36a2c58ba4a67195b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:46 +0000
Subject: [PATCH 065/149] fix: real algebraic numbers in disjoint intervals are
 different

Comparing two numbers whose isolating intervals are disjoint with != gave
false.
---
 src/carl/ran/interval/ran_interval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/ran/interval/ran_interval.h b/src/carl/ran/interval/ran_interval.h
index 4e1bdb4..9263b5b 100644
--- a/src/carl/ran/interval/ran_interval.h
+++ b/src/carl/ran/interval/ran_interval.h
@@ -429,10 +429,10 @@ bool compare(const real_algebraic_number_interval<Number>& lhs, const real_algeb
 	CARL_LOG_TRACE("carl.ran", "Intervals " << lhs.interval_int() << " and " << rhs.interval_int() << " are disjoint");
 	assert(!carl::set_have_intersection(lhs.interval_int(), rhs.interval_int()));
 	if (lhs.interval_int().upper() <= rhs.interval_int().lower()) {
-		return relation == Relation::LESS || relation == Relation::LEQ;
+		return relation == Relation::LESS || relation == Relation::LEQ || relation == Relation::NEQ;
 	}
 	if (lhs.interval_int().lower() >= rhs.interval_int().upper()) {
-		return relation == Relation::GREATER || relation == Relation::GEQ;
+		return relation == Relation::GREATER || relation == Relation::GEQ || relation == Relation::NEQ;
 	}
 
 	assert(false);
-- 
2.43.0


From 69a759ef1dc68784a64a0f36914cc0be80d88c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:19:40 +0000
Subject: [PATCH 066/149] fix: isolate roots in an open interval that has a
 root as bound

The root at the bound stayed in the polynomial that defines the roots inside
the interval. The sign of that polynomial at the bound is zero, so refining
such a number or asking it for the sign of a polynomial gave wrong results.
---
 src/carl/ran/interval/RealRootIsolation.h | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/carl/ran/interval/RealRootIsolation.h b/src/carl/ran/interval/RealRootIsolation.h
index 89f253c..ef2e0ae 100644
--- a/src/carl/ran/interval/RealRootIsolation.h
+++ b/src/carl/ran/interval/RealRootIsolation.h
@@ -144,20 +144,18 @@ class RealRootIsolation {
 		mRoots.emplace_back(mPolynomial, i);
 	}
 
-	/// Check whether the interval bounds are roots.
+	/// Check whether the interval bounds are roots. Roots at open bounds are removed from the polynomial, but are not added to mRoots.
 	bool check_interval_bounds() {
 		bool found_root = false;
-		if (mInterval.lowerBoundType() == BoundType::WEAK) {
-			if (carl::is_root_of(mPolynomial, mInterval.lower())) {
-				add_root(mInterval.lower());
-				found_root = true;
-			}
+		if (mInterval.lowerBoundType() != BoundType::INFTY && carl::is_root_of(mPolynomial, mInterval.lower())) {
+			if (mInterval.lowerBoundType() == BoundType::WEAK) add_root(mInterval.lower());
+			else eliminate_root(mPolynomial, mInterval.lower());
+			found_root = true;
 		}
-		if (mInterval.upperBoundType() == BoundType::WEAK) {
-			if (carl::is_root_of(mPolynomial, mInterval.upper())) {
-				add_root(mInterval.upper());
-				found_root = true;
-			}
+		if (mInterval.upperBoundType() != BoundType::INFTY && carl::is_root_of(mPolynomial, mInterval.upper())) {
+			if (mInterval.upperBoundType() == BoundType::WEAK) add_root(mInterval.upper());
+			else eliminate_root(mPolynomial, mInterval.upper());
+			found_root = true;
 		}
 		return found_root;
 	}
-- 
2.43.0


From c3952b27925bc9ef4d0ad38890b715d1d6ade1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:21:57 +0000
Subject: [PATCH 067/149] fix: sample between real algebraic numbers with
 overlapping intervals

The sample was taken as if the isolating intervals were disjoint. If they were
not, the result was not between the two numbers.
---
 src/carl/ran/interval/ran_interval.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/ran/interval/ran_interval.h b/src/carl/ran/interval/ran_interval.h
index 9263b5b..14e03b1 100644
--- a/src/carl/ran/interval/ran_interval.h
+++ b/src/carl/ran/interval/ran_interval.h
@@ -325,6 +325,10 @@ template<typename Number>
 Number sample_between(const real_algebraic_number_interval<Number>& lower, const real_algebraic_number_interval<Number>& upper) {
 	lower.refine_using(upper.interval_int().lower());
 	upper.refine_using(lower.interval_int().upper());
+	while (lower.interval_int().upper() > upper.interval_int().lower()) {
+		lower.refine();
+		upper.refine();
+	}
 	assert(lower.interval_int().upper() <= upper.interval_int().lower());
 	if (lower.is_numeric()) {
 		return sample_between(lower.value(), upper);
-- 
2.43.0


From 6c926be00fa6b59f862bdeccf99bafc1f609f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:15 +0000
Subject: [PATCH 068/149] fix: divide factorized polynomials by factors hidden
 in their factorization

---
 src/carl-extpolys/FactorizedPolynomial.tpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/carl-extpolys/FactorizedPolynomial.tpp b/src/carl-extpolys/FactorizedPolynomial.tpp
index cb1b4b0..d54bda4 100644
--- a/src/carl-extpolys/FactorizedPolynomial.tpp
+++ b/src/carl-extpolys/FactorizedPolynomial.tpp
@@ -1040,7 +1040,14 @@ namespace carl
             assert( carl::quotient(computePolynomial( *this ), computePolynomial( _fdivisor ) ) == computePolynomial( result ) );
             return result;
         }
-        FactorizedPolynomial<P> result = lazyDiv( *this, _fdivisor ).first;
+        auto reduced = lazyDiv( *this, _fdivisor );
+        FactorizedPolynomial<P> result = reduced.first;
+        if( existsFactorization( reduced.second ) )
+        {
+            // The divisor has factors which the factorization of this polynomial does not show
+            P quot = carl::quotient( computePolynomial( reduced.first ), computePolynomial( reduced.second ) );
+            result = quot.isConstant() ? FactorizedPolynomial<P>( quot.constantPart() ) : FactorizedPolynomial<P>( quot, mpCache );
+        }
         assert( carl::quotient(computePolynomial( *this ), computePolynomial( _fdivisor ) ) == computePolynomial( result ) );
         return result;
     }
-- 
2.43.0


From cf837b3f6481fc6d56fd3bf9743e46605d6ef9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:15 +0000
Subject: [PATCH 069/149] fix: factorized polynomials with different
 coefficients are different

---
 src/carl-extpolys/FactorizedPolynomial.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl-extpolys/FactorizedPolynomial.tpp b/src/carl-extpolys/FactorizedPolynomial.tpp
index d54bda4..b443ab2 100644
--- a/src/carl-extpolys/FactorizedPolynomial.tpp
+++ b/src/carl-extpolys/FactorizedPolynomial.tpp
@@ -719,7 +719,7 @@ namespace carl
         }
         else if( _lhs.pCache() != nullptr && _rhs.pCache() != nullptr )
         {
-            return !(_lhs.content() == _rhs.content());
+            return _lhs.coefficient() != _rhs.coefficient() || !(_lhs.content() == _rhs.content());
         }
         return true;
     }
-- 
2.43.0


From fcc7b6447ef24ba3f70b793be813d41b5172883e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:33:44 +0000
Subject: [PATCH 070/149] fix: keep coefficients and coinciding factors when
 substituting in factorized polynomials

---
 src/carl-extpolys/substitution.h | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/carl-extpolys/substitution.h b/src/carl-extpolys/substitution.h
index 68997b6..9d4e9dc 100644
--- a/src/carl-extpolys/substitution.h
+++ b/src/carl-extpolys/substitution.h
@@ -100,21 +100,11 @@ FactorizedPolynomial<P> substitute(const FactorizedPolynomial<P>& p, const std::
 			return result;
 		}
 	} else {
-		auto resultCoeff = p.coefficient();
-		Factorization<P> resultFactorization;
+		FactorizedPolynomial<P> result(p.coefficient());
 		// Substitute in all factors
 		for (const auto& factor : p.factorization()) {
-			FactorizedPolynomial<P> subResult = carl::substitute(factor.first, substitutions);
-			if (subResult.isZero())
-				return FactorizedPolynomial<P>(constant_zero<typename P::CoeffType>::get());
-			if (subResult.isConstant()) {
-				resultCoeff *= carl::pow(subResult.constantPart(), factor.second);
-			} else {
-				// Add substituted polynomial into factorization
-				resultFactorization.insert(std::pair<FactorizedPolynomial<P>, carl::exponent>(subResult, factor.second));
-			}
+			result *= carl::substitute(factor.first, substitutions).pow(unsigned(factor.second));
 		}
-		FactorizedPolynomial<P> result(std::move(resultFactorization), resultCoeff, p.pCache());
 		assert(computePolynomial(result) == carl::substitute(computePolynomial(p), substitutions));
 		return result;
 	}
-- 
2.43.0


From 5bdad156b4ea0a35dffff48d24eda8fc983a5e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:34:57 +0000
Subject: [PATCH 071/149] fix: assign a factorized polynomial to itself or from
 its own factorization

---
 src/carl-extpolys/FactorizedPolynomial.tpp | 34 ++++++----------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/src/carl-extpolys/FactorizedPolynomial.tpp b/src/carl-extpolys/FactorizedPolynomial.tpp
index b443ab2..1c1a53b 100644
--- a/src/carl-extpolys/FactorizedPolynomial.tpp
+++ b/src/carl-extpolys/FactorizedPolynomial.tpp
@@ -199,33 +199,17 @@ namespace carl
         CARL_LOG_DEBUG("carl.core.factorizedpolynomial", "Copying " << _fpoly);
         ASSERT_CACHE_EQUAL( mpCache, _fpoly.pCache() );
         mCoefficient = _fpoly.mCoefficient;
-        if( mCacheRef != _fpoly.cacheRef() )
-        {
-            if( mpCache != nullptr )
-            {
-                mpCache->dereg( mCacheRef );
-                mCacheRef = _fpoly.cacheRef();
-                assert( _fpoly.pCache() == nullptr || mCacheRef != CACHE::NO_REF );
-                if( _fpoly.pCache() != nullptr )
-                    mpCache->reg( mCacheRef );
-                else
-                    mpCache = nullptr;
-            }
-            else if( _fpoly.mpCache != nullptr )
-            {
-                mpCache = _fpoly.mpCache;
-                mCacheRef = _fpoly.cacheRef();
-                mpCache->reg( mCacheRef );
-            }
-        }
-        else if( mpCache != nullptr )
-        {
-            mpCache->dereg(mCacheRef);
-            mCacheRef = _fpoly.cacheRef();
+        // Register first, as the given polynomial may only be kept alive by this one
+        std::shared_ptr<CACHE> oldCache = mpCache;
+        auto oldRef = mCacheRef;
+        mpCache = _fpoly.mpCache;
+        mCacheRef = _fpoly.cacheRef();
+        if( mpCache != nullptr )
             mpCache->reg( mCacheRef );
-        }
-        ASSERT_CACHE_REF_LEGAL( (*this) );
         assert(computePolynomial(*this) == computePolynomial(_fpoly));
+        if( oldCache != nullptr )
+            oldCache->dereg( oldRef );
+        ASSERT_CACHE_REF_LEGAL( (*this) );
         CARL_LOG_DEBUG("carl.core.factorizedpolynomial", "Done.");
         return *this;
     }
-- 
2.43.0


From 71dfd40fe8b62310c741cd6390177939f677393a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:18:47 +0000
Subject: [PATCH 072/149] fix: constructing a model value from a named object
 moved its content away

---
 src/carl-model/ModelValue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl-model/ModelValue.h b/src/carl-model/ModelValue.h
index 34106b6..b459b8d 100644
--- a/src/carl-model/ModelValue.h
+++ b/src/carl-model/ModelValue.h
@@ -96,7 +96,7 @@ namespace carl
 		ModelValue(const T& _t): mData(_t) {}
 
 		template<typename T, typename T2 = typename std::enable_if<convertible_to_variant<T, Super>::value, T>::type>
-		ModelValue(T&& _t): mData(std::move(_t)) {}
+		ModelValue(T&& _t): mData(std::forward<T>(_t)) {}
 		
 		template<typename ...Args>
 		ModelValue(const std::variant<Args...>& variant): mData(clone(variant)) {}
-- 
2.43.0


From a4a05acfdb4651299755fd48962a6b10c958a332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:52 +0000
Subject: [PATCH 073/149] fix: inserting the evaluated value of a model entry
 into the model used it after it was freed

---
 src/carl-model/Model.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/carl-model/Model.h b/src/carl-model/Model.h
index fc5f130..ad48897 100644
--- a/src/carl-model/Model.h
+++ b/src/carl-model/Model.h
@@ -59,23 +59,27 @@ namespace carl
 		}
 		template<typename P>
 		auto insert(const P& pair) {
+			auto res = mData.insert(pair);
 			resetCaches();
-			return mData.insert(pair);
+			return res;
 		}
 		template<typename P>
 		auto insert(typename Map::const_iterator it, const P& pair) {
+			auto res = mData.insert(it, pair);
 			resetCaches();
-			return mData.insert(it, pair);
+			return res;
 		}
 		template<typename... Args>
 		auto emplace(const key_type& key, Args&& ...args) {
+			auto res = mData.emplace(key,std::forward<Args>(args)...);
 			resetCaches();
-			return mData.emplace(key,std::forward<Args>(args)...);
+			return res;
 		}
 		template<typename... Args>
 		auto emplace_hint(typename Map::const_iterator it, const key_type& key, Args&& ...args) {
+			auto res = mData.emplace_hint(it, key,std::forward<Args>(args)...);
 			resetCaches();
-			return mData.emplace_hint(it, key,std::forward<Args>(args)...);
+			return res;
 		}
 		typename Map::iterator erase(const ModelVariable& variable) {
 			resetCaches();
-- 
2.43.0


From 6f941298f6189bf367cf206db97c8048cfba0d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:19:52 +0000
Subject: [PATCH 074/149] fix: assigning, merging or erasing model entries left
 outdated cached evaluations

---
 src/carl-model/Model.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/carl-model/Model.h b/src/carl-model/Model.h
index ad48897..17e95f3 100644
--- a/src/carl-model/Model.h
+++ b/src/carl-model/Model.h
@@ -91,6 +91,7 @@ namespace carl
 		}
 		typename Map::iterator erase(const typename Map::const_iterator& it) {
 			if (it == mData.end()) return mData.end();
+			resetCaches();
 			return mData.erase(it);
 		}
         void clean() {
@@ -129,8 +130,10 @@ namespace carl
 			auto it = mData.find(key);
 			if (it == mData.end()) mData.emplace(key, t);
 			else it->second = t;
+			resetCaches();
 		}
 		void update(const Model& model, bool disjoint = true) {
+			resetCaches();
 			for (const auto& m: model) {
 				auto res = mData.insert(m);
 				if (disjoint) {
-- 
2.43.0


From 433b8fa939ec11a09b4974ee9d3e3d1c63d94d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:04 +0000
Subject: [PATCH 075/149] fix: default model of a formula with a Boolean
 constant took it for a variable

---
 src/carl-model/Assignment.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl-model/Assignment.tpp b/src/carl-model/Assignment.tpp
index 44f219c..95a05ab 100644
--- a/src/carl-model/Assignment.tpp
+++ b/src/carl-model/Assignment.tpp
@@ -375,6 +375,7 @@ namespace carl
         {
             case carl::FormulaType::TRUE:
             case carl::FormulaType::FALSE:
+                return;
             case carl::FormulaType::BOOL:
             {
                 auto ass = _defaultModel.find( _formula.boolean() );
-- 
2.43.0


From e1b78b2c6994bd343b8595766759c69bff1a4428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:04 +0000
Subject: [PATCH 076/149] fix: changing a polynomial substitution left its
 outdated cached evaluation

---
 src/carl-model/substitutions/ModelPolynomialSubstitution.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl-model/substitutions/ModelPolynomialSubstitution.h b/src/carl-model/substitutions/ModelPolynomialSubstitution.h
index 6d83431..d92cf37 100644
--- a/src/carl-model/substitutions/ModelPolynomialSubstitution.h
+++ b/src/carl-model/substitutions/ModelPolynomialSubstitution.h
@@ -17,9 +17,11 @@ namespace carl {
 		}
 		virtual void multiplyBy(const Rational& n) {
 			mPoly *= n;
+			this->resetCache();
 		}
 		virtual void add(const Rational& n) {
 			mPoly += n;
+			this->resetCache();
 		}
 
 		virtual ModelSubstitutionPtr<Rational,Poly> clone() const {
-- 
2.43.0


From ea89425ba379477688d670ca93c5d8204179bbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:36 +0000
Subject: [PATCH 077/149] fix: checking a formula against a model failed on
 Boolean variables given by a formula

---
 src/carl-model/Assignment.tpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl-model/Assignment.tpp b/src/carl-model/Assignment.tpp
index 95a05ab..a7e610d 100644
--- a/src/carl-model/Assignment.tpp
+++ b/src/carl-model/Assignment.tpp
@@ -130,7 +130,10 @@ namespace carl
             case carl::FormulaType::BOOL:
             {
                 auto ass = _model.find( _formula.boolean() );
-                return ass == _model.end() ? 2 : (ass->second.asBool() ? 1 : 0);
+                if( ass == _model.end() ) return 2;
+                const auto& value = _model.evaluated( _formula.boolean() );
+                if( !value.isBool() ) return 2;
+                return value.asBool() ? 1 : 0;
             }
             case carl::FormulaType::CONSTRAINT:
             {
-- 
2.43.0


From f76aa7d66d32a43d94bcd15d85d3cfd48551b1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:20:36 +0000
Subject: [PATCH 078/149] fix: evaluating a formula over a model ignored
 Boolean variables given by a formula

---
 src/carl-model/evaluation/ModelEvaluation_Formula.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/carl-model/evaluation/ModelEvaluation_Formula.h b/src/carl-model/evaluation/ModelEvaluation_Formula.h
index 3b52edf..fa3ed57 100644
--- a/src/carl-model/evaluation/ModelEvaluation_Formula.h
+++ b/src/carl-model/evaluation/ModelEvaluation_Formula.h
@@ -128,8 +128,12 @@ namespace model {
 			case FormulaType::BOOL: {
 				auto it = m.find(f.boolean());
 				if (it == m.end()) break;
-				if (it->second.isBool()) {
-					f = Formula<Poly>(it->second.asBool() ? FormulaType::TRUE : FormulaType::FALSE);
+				const ModelValue<Rational,Poly>& value = m.evaluated(f.boolean());
+				if (value.isBool()) {
+					f = Formula<Poly>(value.asBool() ? FormulaType::TRUE : FormulaType::FALSE);
+				} else if (value.isSubstitution()) {
+					auto fsubs = dynamic_cast<const ModelFormulaSubstitution<Rational,Poly>*>(value.asSubstitution().get());
+					if (fsubs != nullptr) f = fsubs->getFormula();
 				} else {
 					CARL_LOG_WARN("carl.model.evaluation", "Could not evaluate " << it->first << " as a boolean, value is " << it->second);
 				}
-- 
2.43.0


From 11c75a8c8239b16e5f54df3252162becc4ccbb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:23 +0000
Subject: [PATCH 079/149] fix: evaluating a variable assignment took equal
 numbers of different representation as unequal

---
 src/carl-model/evaluation/ModelEvaluation_Formula.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/carl-model/evaluation/ModelEvaluation_Formula.h b/src/carl-model/evaluation/ModelEvaluation_Formula.h
index fa3ed57..b175376 100644
--- a/src/carl-model/evaluation/ModelEvaluation_Formula.h
+++ b/src/carl-model/evaluation/ModelEvaluation_Formula.h
@@ -97,8 +97,10 @@ namespace model {
 		auto it = m.find(va.var());
 		if (it == m.end()) return;
 		const auto& value = m.evaluated(va.var());
-		const ModelValue<Rational,Poly>& vavalue = va.value();
-		if (value == vavalue) {
+		if (!value.isRational() && !value.isRAN()) return;
+		RealAlgebraicNumber<Rational> reference = value.isRational() ? RealAlgebraicNumber<Rational>(value.asRational()) : value.asRAN();
+		const ModelValue<Rational,Poly> vavalue = va.value();
+		if (reference == vavalue.asRAN()) {
 			f = Formula<Poly>(FormulaType::TRUE);
 		} else {
 			f = Formula<Poly>(FormulaType::FALSE);
-- 
2.43.0


From 9c12f2332df007be5aef363dc951d3dd49a9fc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:22:23 +0000
Subject: [PATCH 080/149] fix: evaluating a variable comparison failed if the
 value of the variable is still an expression

---
 src/carl-model/evaluation/ModelEvaluation_Formula.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl-model/evaluation/ModelEvaluation_Formula.h b/src/carl-model/evaluation/ModelEvaluation_Formula.h
index b175376..ad3c087 100644
--- a/src/carl-model/evaluation/ModelEvaluation_Formula.h
+++ b/src/carl-model/evaluation/ModelEvaluation_Formula.h
@@ -58,7 +58,10 @@ namespace model {
 			return;
 		}
 		const auto& value = m.evaluated(vc.var());
-		assert(value.isRational() || value.isRAN());
+		if (!value.isRational() && !value.isRAN()) {
+			CARL_LOG_DEBUG("carl.model.evaluation", "Could not evaluate " << vc << " as the value of " << vc.var() << " is not a number");
+			return;
+		}
 		RealAlgebraicNumber<Rational> reference = value.isRational() ? RealAlgebraicNumber<Rational>(value.asRational()) : value.asRAN();
 		CARL_LOG_DEBUG("carl.model.evaluation", "Reference value: " << vc.var() << " == " << reference);
 		
-- 
2.43.0


From 335bcfdb666a389be510e6d638edb8b6e6fd07e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:23:50 +0000
Subject: [PATCH 081/149] fix: checking an equality against a model took an
 unknown nested function value for a known one

---
 src/carl-model/Assignment.tpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/carl-model/Assignment.tpp b/src/carl-model/Assignment.tpp
index a7e610d..5401983 100644
--- a/src/carl-model/Assignment.tpp
+++ b/src/carl-model/Assignment.tpp
@@ -106,7 +106,10 @@ namespace carl
             assert( iterB->second.isSortValue() );
             inst.push_back( iterB->second.asSortValue() );
           } else if(arg.isUFInstance()) {
-            inst.push_back(satisfiesUF(_model, arg.asUFInstance()));
+            SortValue value = satisfiesUF(_model, arg.asUFInstance());
+            if( value == defaultSortValue( value.sort() ) )
+                return defaultSortValue(_ufi.uninterpretedFunction().codomain());
+            inst.push_back( value );
           }
       }
       SortValue sv = ufm.get( inst );
-- 
2.43.0


From 59470b01af49d473991c419176809e223d725641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:30:27 +0000
Subject: [PATCH 082/149] fix: comparing a monomial with a variable gave the
 opposite of comparing it with the monomial of that variable

---
 src/carl/core/Monomial.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/carl/core/Monomial.h b/src/carl/core/Monomial.h
index a37e48a..fce655a 100644
--- a/src/carl/core/Monomial.h
+++ b/src/carl/core/Monomial.h
@@ -404,9 +404,10 @@ namespace carl
 		static CompareResult compareLexical(const Monomial::Arg& lhs, Variable rhs)
 		{
 			if(!lhs) return CompareResult::LESS;
-			if(lhs->mExponents.front().first < rhs) return CompareResult::GREATER;
-			if(lhs->mExponents.front().first > rhs) return CompareResult::LESS;
-			if(lhs->mExponents.front().second > 1) return CompareResult::GREATER;
+			if(lhs->mExponents.front().first < rhs) return CompareResult::LESS;
+			if(lhs->mExponents.front().first > rhs) return CompareResult::GREATER;
+			if(lhs->mExponents.front().second > 1) return CompareResult::LESS;
+			if(lhs->mExponents.size() > 1) return CompareResult::GREATER;
 			return CompareResult::EQUAL;
 		}
 
@@ -428,9 +429,8 @@ namespace carl
 		{
 			if(!lhs) return CompareResult::LESS;
 			if(lhs->mTotalDegree > 1) return CompareResult::GREATER;
-			if(lhs->mExponents.front().first < rhs) return CompareResult::GREATER;
-			if(lhs->mExponents.front().first > rhs) return CompareResult::LESS;
-			if(lhs->mExponents.front().second > 1) return CompareResult::GREATER;
+			if(lhs->mExponents.front().first < rhs) return CompareResult::LESS;
+			if(lhs->mExponents.front().first > rhs) return CompareResult::GREATER;
 			return CompareResult::EQUAL;
 		}
 		
-- 
2.43.0


From 1fe56a4385d90c53aadb29cd74141693f0b35c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:40:34 +0000
Subject: [PATCH 083/149] fix: evaluating a zero univariate polynomial over a
 box did not return

---
 src/carl/interval/IntervalEvaluation.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/interval/IntervalEvaluation.h b/src/carl/interval/IntervalEvaluation.h
index 11f36e5..db06bcc 100644
--- a/src/carl/interval/IntervalEvaluation.h
+++ b/src/carl/interval/IntervalEvaluation.h
@@ -125,6 +125,7 @@ inline Interval<Numeric> IntervalEvaluation::evaluate(const UnivariatePolynomial
 	CARL_LOG_FUNC("carl.core.monomial", p << ", " << map);
 	assert(map.count(p.mainVar()) > 0);
 	Interval<Numeric> res = Interval<Numeric>(carl::constant_zero<Numeric>().get());
+	if (isZero(p)) return res;
 	const Interval<Numeric>& varValue = map.at(p.mainVar());
 	Interval<Numeric> exp(1);
 	for (uint i = 0; i <= p.degree(); i++) {
-- 
2.43.0


From 84c0b4203a52b6f070e260fa1983e9fdfee14110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:17 +0000
Subject: [PATCH 084/149] fix: a univariate polynomial built from a map put a
 coefficient after a gap of one at the wrong power

---
 src/carl/core/UnivariatePolynomial.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 162d281..32e01ce 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -120,7 +120,7 @@ UnivariatePolynomial<Coeff>::UnivariatePolynomial(Variable mainVar, const std::m
 	mCoefficients.reserve(coefficients.rbegin()->first);
 	for (const auto& expAndCoeff : coefficients)
 	{
-		if(expAndCoeff.first != mCoefficients.size() + 1)
+		if(expAndCoeff.first != mCoefficients.size())
 		{
 			mCoefficients.resize(expAndCoeff.first, Coeff(0));
 		}
-- 
2.43.0


From d82fba94f76aa20add38d30cac80d9811cd9be50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:17 +0000
Subject: [PATCH 085/149] fix: a coefficient minus a univariate polynomial had
 the wrong sign

---
 src/carl/core/UnivariatePolynomial.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 32e01ce..e4bdede 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -592,7 +592,9 @@ UnivariatePolynomial<C> operator-(const UnivariatePolynomial<C>& lhs, const C& r
 template<typename C>
 UnivariatePolynomial<C> operator-(const C& lhs, const UnivariatePolynomial<C>& rhs)
 {
-	return rhs - lhs;
+	UnivariatePolynomial<C> res(-rhs);
+	res += lhs;
+	return res;
 }
 
 template<typename Coefficient>
-- 
2.43.0


From 7d3ecb3f43fe4764829042b2c0c43ef621791477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:31 +0000
Subject: [PATCH 086/149] fix: the zero univariate polynomial times its main
 variable had a zero leading coefficient

---
 src/carl/core/UnivariatePolynomial.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index e4bdede..3d3369f 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -600,6 +600,7 @@ UnivariatePolynomial<C> operator-(const C& lhs, const UnivariatePolynomial<C>& r
 template<typename Coefficient>
 template<typename C, EnableIf<is_number<C>>>
 UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=(Variable rhs) {
+	if (carl::isZero(*this)) return *this;
 	if (rhs == this->mMainVar) {
 		this->mCoefficients.insert(this->mCoefficients.begin(), Coefficient(0));
 		return *this;
@@ -610,6 +611,7 @@ UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=
 template<typename Coefficient>
 template<typename C, DisableIf<is_number<C>>>
 UnivariatePolynomial<Coefficient>& UnivariatePolynomial<Coefficient>::operator*=(Variable rhs) {
+	if (carl::isZero(*this)) return *this;
 	if (rhs == this->mMainVar) {
 		this->mCoefficients.insert(this->mCoefficients.begin(), Coefficient(0));
 		return *this;
-- 
2.43.0


From eead9b21f8bdf86eac88fb6c3ca597ca095abbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:55:52 +0000
Subject: [PATCH 087/149] fix: scaling a univariate polynomial to coprime
 coefficients read past the end when a coefficient was zero

---
 src/carl/core/UnivariatePolynomial.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index 3d3369f..c598d9e 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -274,8 +274,10 @@ typename UnderlyingNumberType<Coeff>::type UnivariatePolynomial<Coeff>::coprimeF
 {
 	assert(!carl::isZero(*this));
 	auto it = mCoefficients.begin();
+	while (carl::isZero(*it)) ++it;
 	typename UnderlyingNumberType<Coeff>::type factor = it->coprimeFactor();
 	for (++it; it != mCoefficients.end(); ++it) {
+		if (carl::isZero(*it)) continue;
 		factor = carl::lcm(factor, it->coprimeFactor());
 	}
 	return factor;
-- 
2.43.0


From 7839e4e7dc30ec50a18cf08d110107cd14380735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:56:19 +0000
Subject: [PATCH 088/149] fix: substituting the main variable of a univariate
 polynomial summed its coefficients

---
 src/carl/core/polynomialfunctions/Substitution.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Substitution.h b/src/carl/core/polynomialfunctions/Substitution.h
index 26be063..4afc0d7 100644
--- a/src/carl/core/polynomialfunctions/Substitution.h
+++ b/src/carl/core/polynomialfunctions/Substitution.h
@@ -376,10 +376,7 @@ UnivariatePolynomial<Coeff> substitute(const UnivariatePolynomial<Coeff>& p, Var
 		return p;
 	} else {
 		if (var == p.mainVar()) {
-			UnivariatePolynomial<Coeff> res(p.mainVar());
-			for (const auto& c: p.coefficients()) {
-				res += substitute(c, var, value);
-			}
+			UnivariatePolynomial<Coeff> res(p.mainVar(), carl::evaluate(p, value));
 			CARL_LOG_TRACE("carl.core.uvpolynomial", p << " [ " << var << " -> " << value << " ] = " << res);
 			return res;
 		} else {
-- 
2.43.0


From c0c052404808724293200841b06801a5abae838e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:56:58 +0000
Subject: [PATCH 089/149] fix: converting the zero univariate polynomial to a
 multivariate one threw

---
 src/carl/core/MultivariatePolynomial.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/core/MultivariatePolynomial.tpp b/src/carl/core/MultivariatePolynomial.tpp
index 3c98ad8..092e40b 100644
--- a/src/carl/core/MultivariatePolynomial.tpp
+++ b/src/carl/core/MultivariatePolynomial.tpp
@@ -153,7 +153,7 @@ MultivariatePolynomial<Coeff,Ordering,Policies>::MultivariatePolynomial(const Un
 	mOrdered(true)
 {
 	exponent exp = 0;
-	mTerms.reserve(p.degree());
+	mTerms.reserve(p.coefficients().size());
 	for (const auto& c: p.coefficients()) {
 		if (!carl::isZero(c)) {
 			if (exp == 0) mTerms.emplace_back(c);
-- 
2.43.0


From 59950011eefc01a4c6f32d40203392cc73e37631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:57:19 +0000
Subject: [PATCH 090/149] fix: the factors of a univariate polynomial with a
 negative leading coefficient could lose its sign

---
 src/carl/core/polynomialfunctions/Factorization_univariate.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/polynomialfunctions/Factorization_univariate.h b/src/carl/core/polynomialfunctions/Factorization_univariate.h
index c746554..ffe56fa 100644
--- a/src/carl/core/polynomialfunctions/Factorization_univariate.h
+++ b/src/carl/core/polynomialfunctions/Factorization_univariate.h
@@ -334,6 +334,7 @@ FactorMap<Coeff> factorization(const UnivariatePolynomial<Coeff>& p) {
 	// Make the polynomial's coefficients coprime (integral and with gcd 1).
 	UnivariatePolynomial<Coeff> remainingPoly(p.mainVar());
 	Coeff factor = p.coprimeFactor();
+	if (p.lcoeff() * factor < 0) factor = -factor;
 	if(factor == 1)
 	{
 		remainingPoly = p;
-- 
2.43.0


From 5be4113f45a9458e81bdfdaaba6ff784b84ffdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:57:19 +0000
Subject: [PATCH 091/149] fix: the factors of a univariate polynomial with a
 fractional root had a wrong constant

---
 src/carl/core/polynomialfunctions/Factorization_univariate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Factorization_univariate.h b/src/carl/core/polynomialfunctions/Factorization_univariate.h
index ffe56fa..a310cbb 100644
--- a/src/carl/core/polynomialfunctions/Factorization_univariate.h
+++ b/src/carl/core/polynomialfunctions/Factorization_univariate.h
@@ -278,9 +278,9 @@ UnivariatePolynomial<Coeff> exclude_linear_factors(const UnivariatePolynomial<Co
 							result *= factor;
 							CARL_LOG_TRACE("carl.core.upoly", "UnivFactor: add the factor (" << UnivariatePolynomial<Coeff>(result.mainVar(), std::initializer_list<Coeff>({(Coeff)1/factor})) << ")^" << 1 );
 							// Add the constant factor to the factors.
-							if( is_constant(linearFactors.begin()->first) )
+							factor = Coeff(1) / factor;
+							if( !linearFactors.empty() && is_constant(linearFactors.begin()->first) )
 							{
-								factor = Coeff(1) / factor;
 								factor *= linearFactors.begin()->first.lcoeff();
 								linearFactors.erase(linearFactors.begin());
 							}
-- 
2.43.0


From d24e5183dfd2a2b783d3da47afbc84527958b1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:12 +0000
Subject: [PATCH 092/149] fix: subresultants computed with the Ducos strategy
 read past the end of a coefficient list and were wrong

---
 src/carl/core/polynomialfunctions/Resultant.h | 31 ++++++++++++-------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/Resultant.h b/src/carl/core/polynomialfunctions/Resultant.h
index 24d966b..641a7a1 100644
--- a/src/carl/core/polynomialfunctions/Resultant.h
+++ b/src/carl/core/polynomialfunctions/Resultant.h
@@ -228,32 +228,39 @@ std::list<UnivariatePolynomial<Coeff>> subresultants(
 				Coeff lcoeffQ = q.lcoeff();
 				Coeff lcoeffC = c.lcoeff();
 				std::vector<Coeff> h(pDeg);
+				// coefficient of the qDeg'th power of the main variable
+				auto coeffAtQDeg = [&](const Coeff& poly) {
+					auto u = carl::to_univariate_polynomial(poly, variable);
+					return qDeg < u.coefficients().size() ? u.coefficients()[qDeg] : Coeff(0);
+				};
 
 				for (uint d = 0; d < qDeg; d++) {
 					h[d] = lcoeffC * carl::pow(Coeff(variable), d);
 				}
 				if (pDeg != qDeg) { // => aDeg > bDeg
-					h[qDeg] = Coeff(lcoeffC * carl::pow(Coeff(variable), qDeg) - c); // H_e
+					h[qDeg] = lcoeffC * carl::pow(Coeff(variable), qDeg) - Coeff(c); // H_e
 				}
 				for (uint d = qDeg + 1; d < pDeg; d++) {
 					Coeff t = h[d-1] * variable;
-					UnivariatePolynomial<Coeff> reducedNewB = carl::to_univariate_polynomial(t, variable).coefficients()[qDeg] * q;
-					bool res = carl::try_divide(reducedNewB, lcoeffQ, reducedNewB);
-					assert(res || is_constant(reducedNewB));
-					h[d] = Coeff(t - reducedNewB);
+					Coeff reduction;
+					bool res = carl::try_divide(Coeff(coeffAtQDeg(t) * Coeff(q)), lcoeffQ, reduction);
+					assert(res);
+					h[d] = t - reduction;
 				}
 
-				UnivariatePolynomial<Coeff> sum(p.mainVar(), h.front() * p.coefficients()[0]);
-				for (uint d = 1; d < pDeg; d++) {
+				Coeff sum;
+				for (uint d = 0; d < pDeg; d++) {
 					sum += h[d] * p.coefficients()[d];
 				}
-				UnivariatePolynomial<Coeff> normalizedSum(p.mainVar());
+				Coeff normalizedSum;
 				bool res = carl::try_divide(sum, p.lcoeff(), normalizedSum);
-				assert(res || is_constant(sum));
+				assert(res);
 
-				UnivariatePolynomial<Coeff> t(variable, {0, h.back()});
-				UnivariatePolynomial<Coeff> reducedNewB = ((t + normalizedSum) * lcoeffQ - carl::to_univariate_polynomial(t.coefficients()[qDeg], variable));
-				carl::try_divide(reducedNewB, p.lcoeff(), reducedNewB);
+				Coeff t = h.back() * variable;
+				Coeff newB;
+				res = carl::try_divide(Coeff((t + normalizedSum) * lcoeffQ - coeffAtQDeg(t) * Coeff(q)), subresLcoeff, newB);
+				assert(res);
+				UnivariatePolynomial<Coeff> reducedNewB = carl::to_univariate_polynomial(newB, variable);
 				if (delta % 2 == 0) {
 					q = -reducedNewB;
 				} else {
-- 
2.43.0


From 8fc6a6a1e5e1e9037932999ddc05783949152f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:58:29 +0000
Subject: [PATCH 093/149] fix: univariate polynomials of different degree in
 different variables could each be less than the other

---
 src/carl/core/UnivariatePolynomial.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index c598d9e..b6966d4 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -842,6 +842,7 @@ bool UnivariatePolynomial<C>::less(const UnivariatePolynomial<C>& rhs, const Pol
 		case PolynomialComparisonOrder::LowDegree:
 			if (carl::isZero(rhs)) return false;
 			if (carl::isZero(*this) || this->degree() < rhs.degree()) return true;
+			if (rhs.degree() < this->degree()) return false;
 			return *this < rhs;
 		case PolynomialComparisonOrder::Memory:
 			return this < &rhs;
-- 
2.43.0


From 7f6aaeba303d71009569abd7870f0d981cd7623a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:07 +0000
Subject: [PATCH 094/149] fix: dividing integer polynomials read past the end
 of the remainder and failed for a divisor of higher degree

---
 src/carl/core/polynomialfunctions/Division.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/carl/core/polynomialfunctions/Division.h b/src/carl/core/polynomialfunctions/Division.h
index 81d9333..cdd5c9e 100644
--- a/src/carl/core/polynomialfunctions/Division.h
+++ b/src/carl/core/polynomialfunctions/Division.h
@@ -195,13 +195,14 @@ DivisionResult<UnivariatePolynomial<Coeff>> divide(const UnivariatePolynomial<Co
 	if constexpr (is_integer<Coeff>::value) {
 		assert(!carl::isZero(divisor));
 		DivisionResult<UnivariatePolynomial<Coeff>> result {UnivariatePolynomial<Coeff>(dividend.mainVar()), dividend};
-		if(carl::isZero(dividend)) return result;
+		if(carl::isZero(dividend) || divisor.degree() > dividend.degree()) return result;
 		assert(dividend == divisor * result.quotient + result.remainder);
 
 		std::vector<Coeff> coeffs(1+dividend.coefficients().size()-divisor.coefficients().size(), Coeff(0));
 
 		uint degdiff = dividend.degree() - divisor.degree();
 		for (std::size_t offset = 0; offset <= degdiff; offset++) {
+			if (result.remainder.coefficients().size() <= dividend.degree()-offset) continue;
 			Coeff factor = carl::quotient(result.remainder.coefficients()[dividend.degree()-offset], divisor.lcoeff());
 			result.remainder -= UnivariatePolynomial<Coeff>(dividend.mainVar(), factor, degdiff - offset) * divisor;
 			coeffs[degdiff-offset] += factor;
-- 
2.43.0


From ed5301c25b0d24acd1425a3401382d3659964272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:22:27 +0000
Subject: [PATCH 095/149] fix: the objective of an imported pseudo-Boolean
 problem had other variables than its constraints

---
 src/carl-io/OPBImporter.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/carl-io/OPBImporter.h b/src/carl-io/OPBImporter.h
index 51dd27e..faf824c 100644
--- a/src/carl-io/OPBImporter.h
+++ b/src/carl-io/OPBImporter.h
@@ -71,10 +71,7 @@ public:
 			constraints.emplace_back(std::move(pbc));
 		}
 		Formula<Pol> resC(FormulaType::AND, std::move(constraints));
-		Pol objective;
-		for (const auto& term: file->objective) {
-			objective += Number(term.first) * term.second;
-		}
+		Pol objective = convert(file->objective);
 		return std::make_pair(std::move(resC), std::move(objective));
 	}
 };
-- 
2.43.0


From fe20bac141939fa6af224eab90812030aaa1d16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:23:15 +0000
Subject: [PATCH 096/149] fix: a pseudo-Boolean file whose last line is a
 comment without line break was rejected

---
 src/carl-io/OPBImporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl-io/OPBImporter.cpp b/src/carl-io/OPBImporter.cpp
index 808c0eb..c808262 100644
--- a/src/carl-io/OPBImporter.cpp
+++ b/src/carl-io/OPBImporter.cpp
@@ -25,7 +25,7 @@ namespace carl {
 	
 	struct Skipper: public qi::grammar<Iterator> {
 		Skipper(): Skipper::base_type(main, "skipper") {
-			main = (qi::space | (qi::lit("*") > *(qi::char_ - qi::eol) > qi::eol));
+			main = (qi::space | (qi::lit("*") > *(qi::char_ - qi::eol) > (qi::eol | qi::eoi)));
 		};
 		qi::rule<Iterator> main;
 	};
-- 
2.43.0


From e2825a5d9f9050215d5a9c7e7e97e1746471554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:31 +0000
Subject: [PATCH 097/149] fix: a read error while importing a pseudo-Boolean
 file caused an endless loop

---
 src/carl-io/OPBImporter.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/carl-io/OPBImporter.cpp b/src/carl-io/OPBImporter.cpp
index c808262..bf589df 100644
--- a/src/carl-io/OPBImporter.cpp
+++ b/src/carl-io/OPBImporter.cpp
@@ -94,7 +94,18 @@ namespace carl {
 
 	std::optional<OPBFile> parseOPBFile(std::ifstream& in) {
 		OPBParser parser;
-		return parser.parse(in);
+		// The iterators only recognize the end of the file, hence a failing read has to be thrown.
+		auto exceptions = in.exceptions();
+		std::optional<OPBFile> res;
+		try {
+			in.exceptions(std::ios::badbit);
+			res = parser.parse(in);
+		} catch (const std::ios_base::failure&) {
+			res = std::nullopt;
+			in.clear();
+		}
+		in.exceptions(exceptions);
+		return res;
 	}
 
 }
-- 
2.43.0


From 6fdf12562f6def6ba6ca99041267b8b6ede2c94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:44 +0000
Subject: [PATCH 098/149] fix: reporting a syntax error at the begin of a line
 of a pseudo-Boolean file caused an endless loop

---
 src/carl-io/SpiritHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl-io/SpiritHelper.h b/src/carl-io/SpiritHelper.h
index 6ef0f08..4c3be3c 100644
--- a/src/carl-io/SpiritHelper.h
+++ b/src/carl-io/SpiritHelper.h
@@ -18,7 +18,7 @@ namespace parser {
 			static_assert(carl::is_instantiation_of<spirit::line_pos_iterator, T1>::value, "The iterators must be a line_pos_iterator.");
 			auto line_start = spirit::get_line_start(b, where);
 			auto line_end = std::find(where, e, '\n');
-			std::string line(++line_start, line_end);
+			std::string line(line_start, line_end);
 		
 			std::cout << "Parsing error at " << spirit::get_line(where) << ":" << spirit::get_column(line_start, where) << std::endl;
 			std::cout << "expected" << std::endl << "\t" << what.tag << ": " << what << std::endl;
-- 
2.43.0


From 8835f6de7bfd2fd59ca59819630a9f2266c07d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:32:16 +0000
Subject: [PATCH 099/149] fix: contraction into more than two parts returned
 intervals outside of the current one

---
 src/carl/interval/Contraction.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/carl/interval/Contraction.h b/src/carl/interval/Contraction.h
index 0cdc659..3dad308 100644
--- a/src/carl/interval/Contraction.h
+++ b/src/carl/interval/Contraction.h
@@ -439,19 +439,19 @@ namespace carl {
                 }
                 else
                 {
-                    std::sort( resultPropagation.begin(), resultPropagation.end(), 
+                    std::sort( resultingIntervals.begin(), resultingIntervals.end(), 
                               [](const Interval<double>& i,const Interval<double> j) 
                               { if(i<j){return true;} else { assert(j<i); return false; } }
                              );
-                    auto intervalBeforeBiggestGap = resultPropagation.begin();
-                    auto iter = resultPropagation.begin();
+                    auto intervalBeforeBiggestGap = resultingIntervals.begin();
+                    auto iter = resultingIntervals.begin();
                     ++iter;
                     double bestDistance = intervalBeforeBiggestGap->distance(*iter);
-                    for( ; iter != resultPropagation.end(); ++iter )
+                    for( ; iter != resultingIntervals.end(); ++iter )
                     {
                         auto jter = iter;
                         ++jter;
-                        if( jter == resultPropagation.end() )
+                        if( jter == resultingIntervals.end() )
                         {
                             break;
                         }
@@ -466,13 +466,13 @@ namespace carl {
                         }
                     }
                     resA = *intervalBeforeBiggestGap;
-                    for( iter = resultPropagation.begin(); iter != intervalBeforeBiggestGap; ++iter )
+                    for( iter = resultingIntervals.begin(); iter != intervalBeforeBiggestGap; ++iter )
                     {
                         resA = resA.convexHull( *iter );
                     }
                     ++iter;
                     resB = *iter;
-                    for( ; iter != resultPropagation.end(); ++iter )
+                    for( ; iter != resultingIntervals.end(); ++iter )
                     {
                         resB = resB.convexHull( *iter );
                     }
-- 
2.43.0


From 5097c79ac814ff24286b893f519fec77075e61ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:16 +0000
Subject: [PATCH 100/149] fix: difference of intervals that are unbounded on
 the same side

---
 src/carl/interval/set_theory.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/carl/interval/set_theory.h b/src/carl/interval/set_theory.h
index 4531a3b..d720c33 100644
--- a/src/carl/interval/set_theory.h
+++ b/src/carl/interval/set_theory.h
@@ -68,16 +68,16 @@ bool set_difference(const Interval<Number>& lhs, const Interval<Number>& rhs, In
 		return false;
 	}
 	if (lhs.lowerBound() < rhs.lowerBound()) {
-		if (lhs.upperBound() < rhs.upperBound()) {
-			resA = Interval<Number>(lhs.lowerBound(), rhs.lowerBound());
+		resA = Interval<Number>(lhs.lowerBound(), rhs.lowerBound());
+		if (lhs.upperBound() <= rhs.upperBound()) {
+			resB = Interval<Number>::emptyInterval();
 			return false;
 		} else {
-			resA = Interval<Number>(lhs.lowerBound(), rhs.lowerBound());
 			resB = Interval<Number>(rhs.upperBound(), lhs.upperBound());
-			return !resB.isEmpty();
+			return true;
 		}
 	} else {
-		if (lhs.upperBound() < rhs.upperBound()) {
+		if (lhs.upperBound() <= rhs.upperBound()) {
 			resA = Interval<Number>::emptyInterval();
 			resB = Interval<Number>::emptyInterval();
 			return false;
-- 
2.43.0


From 0d7ab859a74893d8319fc13454451c04bc763c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:16 +0000
Subject: [PATCH 101/149] fix: symmetric difference of overlapping intervals
 was empty

---
 src/carl/interval/set_theory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/interval/set_theory.h b/src/carl/interval/set_theory.h
index d720c33..56864b6 100644
--- a/src/carl/interval/set_theory.h
+++ b/src/carl/interval/set_theory.h
@@ -169,7 +169,7 @@ bool set_symmetric_difference(const Interval<Number>& lhs, const Interval<Number
 		return true;
 	} else {
 		Interval<Number> tmp;
-		bool res = set_union(lhs, rhs, tmp, tmp);
+		bool res = set_union(lhs, rhs, tmp, resB);
 		assert(!res);
 		return set_difference(tmp, intersection, resA, resB);
 	}
-- 
2.43.0


From 4303518057d0682458953859bb94a037b175cb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:32 +0000
Subject: [PATCH 102/149] fix: hull of two intervals took the strictness of its
 bounds from the wrong interval

---
 src/carl/interval/Interval.tpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index e06ed5b..ea1c65d 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -361,12 +361,10 @@ Interval<Number> Interval<Number>::convexHull(const Interval<Number>& interval)
 	if(interval.isEmpty())
 		return *this;
 
-	BoundType newLowerBound = getStrictestBoundType(this->lowerBoundType(), interval.lowerBoundType());
-	BoundType newUpperBound = getStrictestBoundType(this->upperBoundType(), interval.upperBoundType());
-	Number newLower = interval.lower() < this->lower() ? interval.lower() : this->lower();
-	Number newUpper = interval.upper() > this->upper() ? interval.upper() : this->upper();
-
-    return Interval(newLower, newLowerBound, newUpper, newUpperBound);
+	return Interval(
+		interval.lowerBound() < this->lowerBound() ? interval.lowerBound() : this->lowerBound(),
+		this->upperBound() < interval.upperBound() ? interval.upperBound() : this->upperBound()
+	);
 }
 
 /*******************************************************************************
-- 
2.43.0


From 97d548359d52f95eccbd3ba4d665da1022b7dd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:47 +0000
Subject: [PATCH 103/149] fix: union of an interval with the empty interval
 lost points

---
 src/carl/interval/set_theory.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/carl/interval/set_theory.h b/src/carl/interval/set_theory.h
index 56864b6..d0639e3 100644
--- a/src/carl/interval/set_theory.h
+++ b/src/carl/interval/set_theory.h
@@ -187,6 +187,11 @@ template<typename Number>
 bool set_union(const Interval<Number>& lhs, const Interval<Number>& rhs, Interval<Number>& resA, Interval<Number>& resB) {
 	assert(lhs.isConsistent() && rhs.isConsistent());
 
+	if (lhs.isEmpty() || rhs.isEmpty()) {
+		resA = lhs.isEmpty() ? rhs : lhs;
+		resB = Interval<Number>::emptyInterval();
+		return false;
+	}
 	if (carl::bounds_connect(lhs.upperBound(), rhs.lowerBound())) {
 		resA = Interval<Number>(lhs.lowerBound(), rhs.upperBound());
 		resB = Interval<Number>::emptyInterval();
-- 
2.43.0


From 3d51fe68e7fadd3eb06c14b325547294c0290e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:06 +0000
Subject: [PATCH 104/149] fix: quotient of rational intervals was bounded if
 the divisor has zero as strict bound

---
 src/carl/interval/Interval.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index ea1c65d..bf6792f 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -607,7 +607,7 @@ Interval<Number> Interval<Number>::div(const Interval<Number>& rhs) const
 		assert(this->isConsistent());
 		assert(rhs.isConsistent());
 		assert(!rhs.contains(carl::constant_zero<Number>().get()));
-		if (rhs.isUnbounded()) {
+		if (rhs.isUnbounded() || carl::isZero(rhs.lower()) || carl::isZero(rhs.upper())) {
 			Interval<Number> reciprocalA, reciprocalB;
 			rhs.reciprocal(reciprocalA, reciprocalB);
 			return this->mul(reciprocalA);
-- 
2.43.0


From 51c9a47e3c5d7c57ca4ee6b5166916c1ca905d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:23 +0000
Subject: [PATCH 105/149] fix: splitting an interval into several parts could
 miss its upper bound

---
 src/carl/interval/Interval.tpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/carl/interval/Interval.tpp b/src/carl/interval/Interval.tpp
index bf6792f..99dd759 100644
--- a/src/carl/interval/Interval.tpp
+++ b/src/carl/interval/Interval.tpp
@@ -303,8 +303,7 @@ template<typename Number>
         }
 
         tmp += diameter;
-        tmp.setUpperBoundType(mUpperBoundType);
-        result.push_back(tmp);
+        result.emplace_back(tmp.lower(), BoundType::WEAK, mContent.upper(), mUpperBoundType);
 		return result;
 	}
 
-- 
2.43.0


From e9bcf800ea6c5a6c55b4103f3ad7ff49a32bb16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:38 +0000
Subject: [PATCH 106/149] fix: sample of an open interval could be one of its
 bounds

---
 src/carl/interval/sampling.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/interval/sampling.h b/src/carl/interval/sampling.h
index 50014a6..0bfea74 100644
--- a/src/carl/interval/sampling.h
+++ b/src/carl/interval/sampling.h
@@ -62,10 +62,10 @@ Number sample_stern_brocot(const Interval<Number>& i, bool includingBounds = tru
 		Int curnum = leftnum + rightnum;
 		Int curden = leftden + rightden;
 		cur = Number(curnum) / Number(curden);
-		if ((cur < i.lower()) || (!includingBounds && cur == i.lower())) {
+		if ((cur < i.lower()) || (cur == i.lower() && (!includingBounds || i.lowerBoundType() == BoundType::STRICT))) {
 			leftnum = curnum;
 			leftden = curden;
-		} else if ((cur > i.upper()) || (!includingBounds && cur == i.upper())) {
+		} else if ((cur > i.upper()) || (cur == i.upper() && (!includingBounds || i.upperBoundType() == BoundType::STRICT))) {
 			rightnum = curnum;
 			rightden = curden;
 		} else {
-- 
2.43.0


From efdbff0f5c39d330ce9a85d3291ae6a641886632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:58:58 +0000
Subject: [PATCH 107/149] fix: multivariate gcd did not compile without CoCoA

---
 src/carl/core/polynomialfunctions/GCD_multivariate.h   | 4 ++--
 src/carl/core/polynomialfunctions/PrimitiveEuclidean.h | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/GCD_multivariate.h b/src/carl/core/polynomialfunctions/GCD_multivariate.h
index 95a4a20..ca27ba8 100644
--- a/src/carl/core/polynomialfunctions/GCD_multivariate.h
+++ b/src/carl/core/polynomialfunctions/GCD_multivariate.h
@@ -32,8 +32,8 @@ namespace gcd_detail {
 			return Polynomial(1);
 		}
 		CARL_LOG_INEFFICIENT();
-		auto A = a.toUnivariatePolynomial(x);
-		auto B = b.toUnivariatePolynomial(x);
+		auto A = to_univariate_polynomial(a, x);
+		auto B = to_univariate_polynomial(b, x);
 		Polynomial result(primitive_euclidean(A.normalized(), B.normalized()));
 		if (carl::isNegative(result.lcoeff()) && !(carl::isNegative(a.lcoeff()) && carl::isNegative(b.lcoeff()))) {
 			return -result;
diff --git a/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h b/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h
index c94cc57..f1a08eb 100644
--- a/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h
+++ b/src/carl/core/polynomialfunctions/PrimitiveEuclidean.h
@@ -2,6 +2,7 @@
 
 #include "Content.h"
 #include "PrimitivePart.h"
+#include "Remainder.h"
 
 #include "../UnivariatePolynomial.h"
 
@@ -18,7 +19,7 @@ UnivariatePolynomial<Coeff> primitive_euclidean(const UnivariatePolynomial<Coeff
 	UnivariatePolynomial<Coeff> d = primitive_part(b.normalized());
 	
 	while (!isZero(d)) {
-		UnivariatePolynomial<Coeff> r = c.prem(d);
+		UnivariatePolynomial<Coeff> r = pseudo_remainder(c, d);
 		c = d;
 		d = primitive_part(r.normalized());
 	}
-- 
2.43.0


From 47f3ce8aad6285d3f36ed9710bcde98e4e67f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:58:58 +0000
Subject: [PATCH 108/149] fix: virtual substitution could not be included on
 its own

---
 src/carl/vs/substitute.h   |  4 ++--
 src/carl/vs/substitute.tpp | 21 +++++++++++----------
 src/carl/vs/zeros.h        |  3 +++
 3 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/carl/vs/substitute.h b/src/carl/vs/substitute.h
index 48ef697..df65b31 100644
--- a/src/carl/vs/substitute.h
+++ b/src/carl/vs/substitute.h
@@ -134,13 +134,13 @@ namespace carl::vs::detail {
      * @param _length The maximal length of the bit strings with odd parity to compute.
      * @param _strings All bit strings of length less or equal the given length with odd parity.
      */
-    void getOddBitStrings( size_t _length, std::vector< std::bitset<MAX_PRODUCT_SPLIT_NUMBER> >& _strings );
+    inline void getOddBitStrings( size_t _length, std::vector< std::bitset<MAX_PRODUCT_SPLIT_NUMBER> >& _strings );
         
     /**
      * @param _length The maximal length of the bit strings with even parity to compute.
      * @param _strings All bit strings of length less or equal the given length with even parity.
      */
-    void getEvenBitStrings( size_t _length, std::vector< std::bitset<MAX_PRODUCT_SPLIT_NUMBER> >& _strings );
+    inline void getEvenBitStrings( size_t _length, std::vector< std::bitset<MAX_PRODUCT_SPLIT_NUMBER> >& _strings );
     
     /**
      * Prints the given disjunction of conjunction of constraints.
diff --git a/src/carl/vs/substitute.tpp b/src/carl/vs/substitute.tpp
index 8aa64eb..1ca83d7 100644
--- a/src/carl/vs/substitute.tpp
+++ b/src/carl/vs/substitute.tpp
@@ -189,7 +189,7 @@ namespace carl::vs::detail
                         if( !_onlyNeq )
                         {
                             toCombine.emplace_back();
-                            const smtrat::Factorization& factorization = constraint->factorization();
+                            const Factors<Poly>& factorization = constraint->factorization();
                             for( auto factor = factorization.begin(); factor != factorization.end(); ++factor )
                             {
                                 toCombine.back().emplace_back();
@@ -209,7 +209,7 @@ namespace carl::vs::detail
                     {
                         toCombine.emplace_back();
                         toCombine.back().emplace_back();
-                        const smtrat::Factorization& factorization = constraint->factorization();
+                        const Factors<Poly>& factorization = constraint->factorization();
                         for( auto factor = factorization.begin(); factor != factorization.end(); ++factor )
                             toCombine.back().back().push_back( Constraint<Poly>( factor->first, Relation::NEQ ) );
                         simplify( toCombine.back() );
@@ -257,7 +257,7 @@ namespace carl::vs::detail
                 {
                     if( !_onlyNeq )
                     {
-                        const smtrat::Factorization& factorization = _constraint.factorization();
+                        const Factors<Poly>& factorization = _constraint.factorization();
                         for( auto factor = factorization.begin(); factor != factorization.end(); ++factor )
                         {
                             result.emplace_back();
@@ -275,7 +275,7 @@ namespace carl::vs::detail
                 case Relation::NEQ:
                 {
                     result.emplace_back();
-                    const smtrat::Factorization& factorization = _constraint.factorization();
+                    const Factors<Poly>& factorization = _constraint.factorization();
                     for( auto factor = factorization.begin(); factor != factorization.end(); ++factor )
                         result.back().push_back( Constraint<Poly>( factor->first, Relation::NEQ ) );
                     simplify( result );
@@ -327,7 +327,7 @@ namespace carl::vs::detail
             while( foundNoInvalidConstraint && pos < cc.size() )
             {
                 const Constraint<Poly>& constraint = cc[pos];
-                std::vector<std::pair<smtrat::Rational,Poly>> sosDec;
+                std::vector<std::pair<typename Poly::NumberType,Poly>> sosDec;
                 bool lcoeffNeg = carl::isNegative(constraint.lhs().lcoeff());
                 if (lcoeffNeg)
                     sosDec = carl::sos_decomposition(-constraint.lhs());
@@ -462,7 +462,7 @@ namespace carl::vs::detail
             ConstraintConjunction<Poly> negatives;
             ConstraintConjunction<Poly> alwaysnegatives;
             unsigned numOfAlwaysNegatives = 0;
-            const smtrat::Factorization& product = _constraint.factorization();
+            const Factors<Poly>& product = _constraint.factorization();
             for( auto factor = product.begin(); factor != product.end(); ++factor )
             {
                 Constraint<Poly> consPos = Constraint<Poly>( factor->first, relPos );
@@ -539,7 +539,7 @@ namespace carl::vs::detail
         return combinations;
     }
 
-    void getOddBitStrings( std::size_t _length, std::vector< std::bitset<MAX_PRODUCT_SPLIT_NUMBER> >& _strings )
+    inline void getOddBitStrings( std::size_t _length, std::vector< std::bitset<MAX_PRODUCT_SPLIT_NUMBER> >& _strings )
     {
         assert( _length > 0 );
         if( _length == 1 )  _strings.push_back( std::bitset<MAX_PRODUCT_SPLIT_NUMBER>( 1 ) );
@@ -557,7 +557,7 @@ namespace carl::vs::detail
         }
     }
 
-    void getEvenBitStrings( std::size_t _length, std::vector< std::bitset<MAX_PRODUCT_SPLIT_NUMBER> >& _strings )
+    inline void getEvenBitStrings( std::size_t _length, std::vector< std::bitset<MAX_PRODUCT_SPLIT_NUMBER> >& _strings )
     {
         assert( _length > 0 );
         if( _length == 1 ) _strings.push_back( std::bitset<MAX_PRODUCT_SPLIT_NUMBER>( 0 ) );
@@ -669,11 +669,12 @@ namespace carl::vs::detail
         if( _cons.hasVariable( _subs.variable() ) )
         {
             // Collect all necessary left hand sides to create the new conditions of all cases referring to the virtual substitution.
-            if( carl::pow( smtrat::Rational(smtrat::Rational(_subs.term().sqrt_ex().constantPart().size()) + smtrat::Rational(_subs.term().sqrt_ex().factor().size()) * smtrat::Rational(_subs.term().sqrt_ex().radicand().size())), _cons.maxDegree( _subs.variable() )) > (MAX_NUM_OF_TERMS*MAX_NUM_OF_TERMS) )
+            using Rational = typename Poly::NumberType;
+            if( carl::pow( Rational(Rational(_subs.term().sqrt_ex().constantPart().size()) + Rational(_subs.term().sqrt_ex().factor().size()) * Rational(_subs.term().sqrt_ex().radicand().size())), _cons.maxDegree( _subs.variable() )) > (MAX_NUM_OF_TERMS*MAX_NUM_OF_TERMS) )
             {
                 return false;
             }
-            smtrat::SqrtEx sub = smtrat::SqrtEx::subBySqrtEx( _cons.lhs(), _subs.variable(), _subs.term().sqrt_ex() );
+            SqrtEx<Poly> sub = SqrtEx<Poly>::subBySqrtEx( _cons.lhs(), _subs.variable(), _subs.term().sqrt_ex() );
             #ifdef VS_DEBUG_SUBSTITUTION
             std::cout << "Result of common substitution:" << sub << std::endl;
             #endif
diff --git a/src/carl/vs/zeros.h b/src/carl/vs/zeros.h
index 452a2da..40a2ffa 100644
--- a/src/carl/vs/zeros.h
+++ b/src/carl/vs/zeros.h
@@ -1,6 +1,9 @@
 #pragma once
 
 #include "SqrtEx.h"
+
+#include <carl/formula/VariableComparison.h>
+
 #include <optional>
 #include <vector>
 
-- 
2.43.0


From c85f02a343854ddea00e751ff2a4621816716260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:00:28 +0000
Subject: [PATCH 109/149] fix: the gcd of terms could not be compiled

---
 src/carl/core/polynomialfunctions/GCD_Term.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/carl/core/polynomialfunctions/GCD_Term.h b/src/carl/core/polynomialfunctions/GCD_Term.h
index 1ef3460..3ac4876 100644
--- a/src/carl/core/polynomialfunctions/GCD_Term.h
+++ b/src/carl/core/polynomialfunctions/GCD_Term.h
@@ -16,8 +16,8 @@ namespace carl {
 template<typename Coeff>
 Term<Coeff> gcd(const Term<Coeff>& t1, const Term<Coeff>& t2) {
 	static_assert(is_field<Coeff>::value, "Not yet defined for other coefficients");
-	assert(!t1.isZero());
-	assert(!t2.isZero());
+	assert(!carl::isZero(t1));
+	assert(!carl::isZero(t2));
 	if (t1.isConstant() || t2.isConstant()) {
 		return Term<Coeff>(Coeff(carl::gcd(t1.coeff(), t2.coeff())));
 	}
@@ -26,6 +26,5 @@ Term<Coeff> gcd(const Term<Coeff>& t1, const Term<Coeff>& t2) {
 		carl::gcd(t1.monomial(), t2.monomial())
 	);
 }
-}
 
 }
\ No newline at end of file
-- 
2.43.0


From bbba4c5564fae5104f8dd69072dac60e1336cbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:03 +0000
Subject: [PATCH 110/149] fix: subtracting a polynomial from a constant
 rational function gave the negated difference

---
 src/carl-extpolys/RationalFunction.tpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/carl-extpolys/RationalFunction.tpp b/src/carl-extpolys/RationalFunction.tpp
index 1a407d5..bd4db17 100644
--- a/src/carl-extpolys/RationalFunction.tpp
+++ b/src/carl-extpolys/RationalFunction.tpp
@@ -137,7 +137,7 @@ template<bool byInverse>
 RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::add(const Pol& rhs) {
 	if (this->isConstant()) {
 		CoeffType c = this->mNumberQuotient;
-		Pol resultNum(std::move(byInverse ? (rhs * CoeffType(getDenom(c)) - CoeffType(getNum(c))) : (rhs * CoeffType(getDenom(c)) + CoeffType(getNum(c)))));
+		Pol resultNum(std::move(byInverse ? (rhs * CoeffType(-getDenom(c)) + CoeffType(getNum(c))) : (rhs * CoeffType(getDenom(c)) + CoeffType(getNum(c)))));
 		*this = std::move(RationalFunction<Pol, AS>(std::move(resultNum), std::move(Pol(CoeffType(getDenom(c))))));
 		return *this;
 	}
@@ -156,11 +156,8 @@ RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::add(Variable rhs) {
 	if (this->isConstant()) {
 		CoeffType c(this->mNumberQuotient);
 		Pol resultNum(rhs);
-		resultNum *= CoeffType(getDenom(c));
-		if (byInverse)
-			resultNum -= CoeffType(getNum(c));
-		else
-			resultNum += CoeffType(getNum(c));
+		resultNum *= CoeffType(byInverse ? -getDenom(c) : getDenom(c));
+		resultNum += CoeffType(getNum(c));
 		*this = std::move(RationalFunction<Pol, AS>(std::move(resultNum), std::move(Pol(CoeffType(getDenom(c))))));
 		return *this;
 	}
-- 
2.43.0


From 6655ba07a300c048911c8e19a76a1601643c215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:09:03 +0000
Subject: [PATCH 111/149] fix: adding a rational function to itself or dividing
 it by itself in place gave a wrong function

---
 src/carl-extpolys/RationalFunction.tpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl-extpolys/RationalFunction.tpp b/src/carl-extpolys/RationalFunction.tpp
index bd4db17..2ec17fa 100644
--- a/src/carl-extpolys/RationalFunction.tpp
+++ b/src/carl-extpolys/RationalFunction.tpp
@@ -74,6 +74,7 @@ void RationalFunction<Pol, AS>::eliminateCommonFactor(bool _justNormalize) {
 template<typename Pol, bool AS>
 template<bool byInverse>
 RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::add(const RationalFunction<Pol, AS>& rhs) {
+	if (this == &rhs) return this->template add<byInverse>(RationalFunction<Pol, AS>(rhs));
 	if (this->isConstant() && rhs.isConstant()) {
 		if (byInverse)
 			this->mNumberQuotient -= rhs.mNumberQuotient;
@@ -259,6 +260,7 @@ RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::operator*=(carl::sint rhs)
 
 template<typename Pol, bool AS>
 RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::operator/=(const RationalFunction<Pol, AS>& rhs) {
+	if (this == &rhs) return *this /= RationalFunction<Pol, AS>(rhs);
 	if (this->isConstant() && rhs.isConstant()) {
 		this->mNumberQuotient /= rhs.mNumberQuotient;
 		return *this;
-- 
2.43.0


From 6f03cd344e10b460cd9855b63b874e6cc10a2be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:10:48 +0000
Subject: [PATCH 112/149] fix: rational functions with a constant denominator
 were never marked as simplified

---
 src/carl-extpolys/RationalFunction.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl-extpolys/RationalFunction.tpp b/src/carl-extpolys/RationalFunction.tpp
index 2ec17fa..ee3b1b3 100644
--- a/src/carl-extpolys/RationalFunction.tpp
+++ b/src/carl-extpolys/RationalFunction.tpp
@@ -62,6 +62,7 @@ void RationalFunction<Pol, AS>::eliminateCommonFactor(bool _justNormalize) {
 		cpFactor *= cpFactorDen / cpFactorNom;
 		mIsSimplified = true;
 	}
+	if (denominatorAsPolynomial().isConstant()) mIsSimplified = true;
 	mPolynomialQuotient->first *= carl::getNum(cpFactor);
 	mPolynomialQuotient->second *= carl::getDenom(cpFactor);
 	if (nominatorAsPolynomial().isConstant() && denominatorAsPolynomial().isConstant()) {
-- 
2.43.0


From 041a6ecaaef1bd6ef3ee609533d6610b42703c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:11:20 +0000
Subject: [PATCH 113/149] fix: rational functions were not simplified after a
 division by a number

---
 src/carl-extpolys/RationalFunction.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/carl-extpolys/RationalFunction.tpp b/src/carl-extpolys/RationalFunction.tpp
index ee3b1b3..37be41d 100644
--- a/src/carl-extpolys/RationalFunction.tpp
+++ b/src/carl-extpolys/RationalFunction.tpp
@@ -296,8 +296,8 @@ RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::operator/=(const Pol& rhs)
 		mPolynomialQuotient->first /= rhs.constantPart();
 	} else {
 		mPolynomialQuotient->second *= rhs;
-		eliminateCommonFactor(!AS);
 	}
+	eliminateCommonFactor(!AS);
 	return *this;
 }
 
@@ -325,6 +325,7 @@ RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::operator/=(unsigned long r
 	}
 	mIsSimplified = false;
 	mPolynomialQuotient->first /= rhs;
+	eliminateCommonFactor(!AS);
 	return *this;
 }
 
@@ -336,6 +337,7 @@ RationalFunction<Pol, AS>& RationalFunction<Pol, AS>::operator/=(const typename
 	}
 	mIsSimplified = false;
 	mPolynomialQuotient->first /= rhs;
+	eliminateCommonFactor(!AS);
 	return *this;
 }
 
-- 
2.43.0


From 350a096359b1fe8958ab29fb6296e4bf14253e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:11:42 +0000
Subject: [PATCH 114/149] fix: a rational function made from a polynomial with
 fractions differed from the same quotient

---
 src/carl-extpolys/RationalFunction.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/carl-extpolys/RationalFunction.h b/src/carl-extpolys/RationalFunction.h
index 40d393a..7966092 100644
--- a/src/carl-extpolys/RationalFunction.h
+++ b/src/carl-extpolys/RationalFunction.h
@@ -53,8 +53,11 @@ public:
 		  mIsSimplified(true) {
 		if (p.isConstant())
 			mNumberQuotient = p.constantPart();
-		else
+		else {
 			mPolynomialQuotient = std::pair<Pol, Pol>(p, std::move(Pol(1)));
+			mIsSimplified = false;
+			eliminateCommonFactor(true);
+		}
 	}
 
 	explicit RationalFunction(Pol&& p)
@@ -62,8 +65,11 @@ public:
 		  mIsSimplified(true) {
 		if (p.isConstant())
 			mNumberQuotient = p.constantPart();
-		else
+		else {
 			mPolynomialQuotient = std::pair<Pol, Pol>(std::move(p), std::move(Pol(1)));
+			mIsSimplified = false;
+			eliminateCommonFactor(true);
+		}
 	}
 
 	explicit RationalFunction(const Pol& nom, const Pol& denom)
-- 
2.43.0


From a869413eb254595222e9b4f428c6731c412ca1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:01 +0000
Subject: [PATCH 115/149] fix: the inverse of a rational function was not
 normalized

---
 src/carl-extpolys/RationalFunction.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl-extpolys/RationalFunction.h b/src/carl-extpolys/RationalFunction.h
index 7966092..e34f468 100644
--- a/src/carl-extpolys/RationalFunction.h
+++ b/src/carl-extpolys/RationalFunction.h
@@ -184,7 +184,7 @@ public:
 		if (isConstant()) {
 			return RationalFunction(boost::none, 1 / mNumberQuotient, mIsSimplified);
 		} else {
-			return RationalFunction(boost::optional<std::pair<Pol, Pol>>(std::pair<Pol, Pol>(mPolynomialQuotient->second, mPolynomialQuotient->first)), carl::constant_zero<CoeffType>().get(), mIsSimplified);
+			return RationalFunction(mPolynomialQuotient->second, mPolynomialQuotient->first);
 		}
 	}
 
-- 
2.43.0


From a776fa773bea6f1879643b9071ddd3d24f59430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:14:41 +0000
Subject: [PATCH 116/149] fix: the gcd of factorized polynomials crashed if the
 gcd of two factors was not primitive

---
 src/carl-extpolys/PolynomialFactorizationPair.tpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/carl-extpolys/PolynomialFactorizationPair.tpp b/src/carl-extpolys/PolynomialFactorizationPair.tpp
index 07646a7..8a825fd 100644
--- a/src/carl-extpolys/PolynomialFactorizationPair.tpp
+++ b/src/carl-extpolys/PolynomialFactorizationPair.tpp
@@ -488,10 +488,7 @@ namespace carl
                         assert( factorB.content().mpPolynomial != nullptr );
                         polA = *factorA.content().mpPolynomial;
                         polB = *factorB.content().mpPolynomial;
-                        polGCD = carl::gcd( polA, polB );
-                        if (carl::isNegative(polGCD.lcoeff())) {
-                            polGCD = -polGCD;
-                        }
+                        polGCD = carl::gcd( polA, polB ).coprimeCoefficients();
                         CARL_LOG_DEBUG( "carl.core.factorizedpolynomial", __LINE__ << ": GCD of " << polA << " and " << polB << ": " << polGCD);
                     }
 
-- 
2.43.0


From 32ce464e99c356a60c90846798337235023dafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:22 +0000
Subject: [PATCH 117/149] fix: the zero of a comparison was the other root of
 its polynomial if that has a negative leading coefficient

---
 src/carl/vs/zeros.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/vs/zeros.h b/src/carl/vs/zeros.h
index 40a2ffa..9c922a6 100644
--- a/src/carl/vs/zeros.h
+++ b/src/carl/vs/zeros.h
@@ -198,12 +198,12 @@ bool gather_zeros(const VariableComparison<Poly>& varcomp, const Variable& elimi
 					assert(Constraint<Poly>(radicand, carl::Relation::GEQ) == Constraint<Poly>(true));
 					assert(Constraint<Poly>(coeffs.rbegin()->second, carl::Relation::NEQ) == Constraint<Poly>(true));
 
-					if (idx == 0) {
+					// For a < 0 the smaller root is the one with the positive square root.
+					if ((idx == 0) == (coeffs.rbegin()->second.constantPart() > 0)) {
 						// Create[x -> (-b-sqrt(b^2-4ac))/2a]
 						SqrtEx<Poly> sqExA(-linearCoeff, Poly(-1), Rational(2) * coeffs.rbegin()->second, radicand);
 						results.push_back({std::move(sqExA), {}});
 					} else {
-						assert(idx == 1);
 						// Create [x -> (-b+sqrt(b^2-4ac))/2a]
 						SqrtEx<Poly> sqExB(-linearCoeff, Poly(1), Rational(2) * coeffs.rbegin()->second, radicand);
 						results.push_back({std::move(sqExB), {}});
-- 
2.43.0


From 53375f88bd9288bac1e59b5ec54fa93d34298c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:23:55 +0000
Subject: [PATCH 118/149] fix: the number of a constant square root expression
 ignored its denominator

---
 src/carl/vs/SqrtEx.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/vs/SqrtEx.h b/src/carl/vs/SqrtEx.h
index 335c45e..2dca7d7 100644
--- a/src/carl/vs/SqrtEx.h
+++ b/src/carl/vs/SqrtEx.h
@@ -142,7 +142,7 @@ namespace carl
             Rational asConstant() const
             {
                 assert( isConstant() );
-                return mConstantPart.constantPart();
+                return mConstantPart.constantPart()/mDenominator.constantPart();
             }
 
             /**
@@ -162,7 +162,7 @@ namespace carl
                 if( isConstant() )
                     return asConstant();
                 assert( isRational() );
-                return mConstantPart.constantPart()/mFactor.constantPart();
+                return mConstantPart.constantPart()/mDenominator.constantPart();
             }
             
         private:
-- 
2.43.0


From e3b426e9946ca5c9e2600f771a0a340c9ae6bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:26:56 +0000
Subject: [PATCH 119/149] fix: adding or multiplying square root expressions
 lost the square root of the second one

---
 src/carl/vs/SqrtEx.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index 8900383..cd5cdcf 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -192,7 +192,7 @@ namespace carl
         assert( !hasSqrt() ||!rhs.hasSqrt() || radicand() == rhs.radicand() );
         SqrtEx<Poly> result = SqrtEx<Poly>( rhs.denominator() * constantPart() + rhs.constantPart() * denominator(),
                          rhs.denominator() * factor() + rhs.factor() * denominator(),
-                         denominator() * rhs.denominator(), radicand() );
+                         denominator() * rhs.denominator(), hasSqrt() ? radicand() : rhs.radicand() );
         return result;
     }
 
@@ -202,7 +202,7 @@ namespace carl
         assert( !hasSqrt() || !rhs.hasSqrt() || radicand() == rhs.radicand() );
         SqrtEx<Poly> result = SqrtEx<Poly>( rhs.denominator() * constantPart() - rhs.constantPart() * denominator(),
                          rhs.denominator() * factor() - rhs.factor() * denominator(),
-                         denominator() * rhs.denominator(), radicand() );
+                         denominator() * rhs.denominator(), hasSqrt() ? radicand() : rhs.radicand() );
         return result;
     }
 
@@ -212,7 +212,7 @@ namespace carl
         assert( !hasSqrt() || !rhs.hasSqrt() || radicand() == rhs.radicand() );
         SqrtEx<Poly> result = SqrtEx<Poly>( rhs.constantPart() * constantPart() + rhs.factor() * factor() * radicand(),
                          rhs.constantPart() * factor() + rhs.factor() * constantPart(),
-                         denominator() * rhs.denominator(), radicand() );
+                         denominator() * rhs.denominator(), hasSqrt() ? radicand() : rhs.radicand() );
         return result;
     }
 
-- 
2.43.0


From 4223c7e7873055e53ab68a5f5e0e7e6ff69805ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:26:56 +0000
Subject: [PATCH 120/149] fix: the quotient of square root expressions divided
 by zero

---
 src/carl/vs/SqrtEx.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index cd5cdcf..6145e86 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -221,7 +221,7 @@ namespace carl
     {
         assert( !rhs.hasSqrt() );
         SqrtEx<Poly> result = SqrtEx<Poly>( constantPart() * rhs.denominator(), factor() * rhs.denominator(),
-                         denominator() * rhs.factor(), radicand() );
+                         denominator() * rhs.constantPart(), radicand() );
         return result;
     }
     
-- 
2.43.0


From 14acea7fdf974a601ad7efd9364a0b2124834dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:27:21 +0000
Subject: [PATCH 121/149] fix: substituting infinity in an inequality was wrong
 for even degrees

---
 src/carl/vs/substitute.tpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/vs/substitute.tpp b/src/carl/vs/substitute.tpp
index 1ca83d7..18639eb 100644
--- a/src/carl/vs/substitute.tpp
+++ b/src/carl/vs/substitute.tpp
@@ -1145,6 +1145,10 @@ namespace carl::vs::detail
             if( _cons.relation() == Relation::LESS || _cons.relation() == Relation::LEQ )
             {
                 oddRelationType  = Relation::LESS;
+                evenRelationType = Relation::LESS;
+            }
+            else
+            {
                 evenRelationType = Relation::GREATER;
             }
         }
-- 
2.43.0


From 84bc92b567e3973e3cafdfb7a072b9903bad4c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:28:42 +0000
Subject: [PATCH 122/149] fix: the rounded value of a square root expression
 could be rounded to the wrong side

---
 src/carl/vs/SqrtEx.tpp | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index 6145e86..7cded24 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -322,16 +322,22 @@ namespace carl
                 if( factorValue > 0 && (sqrtExValue*sqrtExValue) > radicandValue )
                 {
                     // The factor of the resulting square root is positive, hence force rounding down.
-                    dbSqrt = std::nextafter( dbSqrt, -INFINITY );
-                    sqrtExValue = carl::rationalize<Rational>( dbSqrt );
-                    assert( !((sqrtExValue*sqrtExValue) > radicandValue) );
+                    do
+                    {
+                        dbSqrt = std::nextafter( dbSqrt, -INFINITY );
+                        sqrtExValue = carl::rationalize<Rational>( dbSqrt );
+                    }
+                    while( (sqrtExValue*sqrtExValue) > radicandValue );
                 }
                 else if( factorValue < 0 && (sqrtExValue*sqrtExValue) < radicandValue )
                 {
                     // The factor of the resulting square root is negative, hence force rounding up.
-                    dbSqrt = std::nextafter( dbSqrt, INFINITY );
-                    sqrtExValue = carl::rationalize<Rational>( dbSqrt );
-                    assert( !((sqrtExValue*sqrtExValue) < radicandValue) );
+                    do
+                    {
+                        dbSqrt = std::nextafter( dbSqrt, INFINITY );
+                        sqrtExValue = carl::rationalize<Rational>( dbSqrt );
+                    }
+                    while( (sqrtExValue*sqrtExValue) < radicandValue );
                 }
             }
             else if( _rounding > 0 ) // If the result should round up in this case.
@@ -339,16 +345,22 @@ namespace carl
                 if( factorValue < 0 && (sqrtExValue*sqrtExValue) > radicandValue )
                 {
                     // The factor of the resulting square root is negative, hence force rounding down.
-                    dbSqrt = std::nextafter( dbSqrt, -INFINITY );
-                    sqrtExValue = carl::rationalize<Rational>( dbSqrt );
-                    assert( !((sqrtExValue*sqrtExValue) > radicandValue) );
+                    do
+                    {
+                        dbSqrt = std::nextafter( dbSqrt, -INFINITY );
+                        sqrtExValue = carl::rationalize<Rational>( dbSqrt );
+                    }
+                    while( (sqrtExValue*sqrtExValue) > radicandValue );
                 }
                 else if( factorValue > 0 && (sqrtExValue*sqrtExValue) < radicandValue )
                 {
                     // The factor of the resulting square root is positive, hence force rounding up.
-                    dbSqrt = std::nextafter( dbSqrt, INFINITY );
-                    sqrtExValue = carl::rationalize<Rational>( dbSqrt );
-                    assert( !((sqrtExValue*sqrtExValue) < radicandValue) );
+                    do
+                    {
+                        dbSqrt = std::nextafter( dbSqrt, INFINITY );
+                        sqrtExValue = carl::rationalize<Rational>( dbSqrt );
+                    }
+                    while( (sqrtExValue*sqrtExValue) < radicandValue );
                 }
             }
         }
-- 
2.43.0


From d1532e5f301faa141e2285bbc9b408058660310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:29:11 +0000
Subject: [PATCH 123/149] fix: the value of a square root expression with a
 negative denominator was rounded in the wrong direction

---
 src/carl/vs/SqrtEx.tpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index 7cded24..5558a5e 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -306,6 +306,13 @@ namespace carl
         assert( denomEvaluated.isConstant() );
         Rational denomValue = denomEvaluated.constantPart();
         assert( !carl::isZero( denomValue ) );
+        if( denomValue < 0 )
+        {
+            // The signs of the factor and the denominator determine the direction to round in.
+            constantPartValue = -constantPartValue;
+            factorValue = -factorValue;
+            denomValue = -denomValue;
+        }
         // Check whether the resulting assignment is integer.
         bool rounded = true;
         Rational sqrtExValue;
-- 
2.43.0


From db5232c775587883ab56e90a9f45a1e565831681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:29:36 +0000
Subject: [PATCH 124/149] fix: a square root expression that is zero could keep
 its denominator

---
 src/carl/vs/SqrtEx.tpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/carl/vs/SqrtEx.tpp b/src/carl/vs/SqrtEx.tpp
index 5558a5e..7f7b848 100644
--- a/src/carl/vs/SqrtEx.tpp
+++ b/src/carl/vs/SqrtEx.tpp
@@ -89,7 +89,11 @@ namespace carl
                 }
             }
         }
-        if( isZero(gcdA) ) return;
+        if( isZero(gcdA) )
+        {
+            mDenominator = constant_one<Poly>::get();
+            return;
+        }
         Rational ccGcdA = gcdA.coprimeFactor();
         Poly cpGcdA = gcdA * ccGcdA;
         Rational ccDenominator = mDenominator.coprimeFactor();
-- 
2.43.0


From 3cc8b575e8f40473f5ce234d181a3748b0ee3a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:51:46 +0000
Subject: [PATCH 125/149] fix: the gcd of factorized polynomials missed common
 factors without real zeros

---
 src/carl-extpolys/PolynomialFactorizationPair.tpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/carl-extpolys/PolynomialFactorizationPair.tpp b/src/carl-extpolys/PolynomialFactorizationPair.tpp
index 8a825fd..dd73ce5 100644
--- a/src/carl-extpolys/PolynomialFactorizationPair.tpp
+++ b/src/carl-extpolys/PolynomialFactorizationPair.tpp
@@ -334,12 +334,6 @@ namespace carl
             mIrreducible = 1;
             return true;
         }
-        Definiteness definiteness = carl::definiteness(*mpPolynomial);
-        if ( definiteness == Definiteness::POSITIVE || definiteness == Definiteness::NEGATIVE )
-        {
-            mIrreducible = 1;
-            return true;
-        }
         mIrreducible = 0;
         return false;
     }
-- 
2.43.0


From 6bbf9b75aebded5f9d12000d9ac44b5ad3f51e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:52:10 +0000
Subject: [PATCH 126/149] fix: rational functions over factorized polynomials
 were not always simplified

---
 src/carl-extpolys/RationalFunction.tpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/carl-extpolys/RationalFunction.tpp b/src/carl-extpolys/RationalFunction.tpp
index 37be41d..bab7686 100644
--- a/src/carl-extpolys/RationalFunction.tpp
+++ b/src/carl-extpolys/RationalFunction.tpp
@@ -51,10 +51,16 @@ void RationalFunction<Pol, AS>::eliminateCommonFactor(bool _justNormalize) {
 	mPolynomialQuotient->second *= cpFactorDen;
 	CoeffType cpFactor(std::move(cpFactorDen / cpFactorNom));
 	if (!_justNormalize && !denominatorAsPolynomial().isConstant()) {
-		carl::gcd(nominatorAsPolynomial(), denominatorAsPolynomial());
-		auto ret = carl::lazyDiv(nominatorAsPolynomial(), denominatorAsPolynomial());
-		mPolynomialQuotient->first = std::move(ret.first);
-		mPolynomialQuotient->second = std::move(ret.second);
+		if constexpr (needs_cache<Pol>::value) {
+			// The factorizations of both polynomials do not necessarily show all common factors.
+			Pol common(carl::gcd(nominatorAsPolynomial(), denominatorAsPolynomial()));
+			mPolynomialQuotient->first /= common;
+			mPolynomialQuotient->second /= common;
+		} else {
+			auto ret = carl::lazyDiv(nominatorAsPolynomial(), denominatorAsPolynomial());
+			mPolynomialQuotient->first = std::move(ret.first);
+			mPolynomialQuotient->second = std::move(ret.second);
+		}
 		CoeffType cpFactorNom(nominatorAsPolynomial().coprimeFactor());
 		CoeffType cpFactorDen(denominatorAsPolynomial().coprimeFactor());
 		mPolynomialQuotient->first *= cpFactorNom;
-- 
2.43.0


From 5f70502e2f7f46d7ae161001fd8047ab8a09f1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:10:30 +0000
Subject: [PATCH 127/149] fix: reading a rational function from a string did
 not compile

---
 src/carl/util/stringparser.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/carl/util/stringparser.h b/src/carl/util/stringparser.h
index b8285a4..7de43a9 100644
--- a/src/carl/util/stringparser.h
+++ b/src/carl/util/stringparser.h
@@ -140,19 +140,19 @@ namespace carl
 			}
 			else if(nomAndDenom.size() == 2)
 			{
-				auto nom = parseMultivariatePolynomial<C>(nomAndDenom.front());
-				auto denom = parseMultivariatePolynomial<C>(nomAndDenom.back());
+				auto nom = parseMultivariatePolynomial<C,O,P>(nomAndDenom.front());
+				auto denom = parseMultivariatePolynomial<C,O,P>(nomAndDenom.back());
 				if(denom.isZero())
 				{
 					throw InvalidInputStringException("Denominator is zero", nomAndDenom.back() , inputString);
 				}
-				return {nom, denom};
+				return RationalFunction<MultivariatePolynomial<C,O,P>>(nom, denom);
 			}
 			else
 			{
 				assert(nomAndDenom.size() == 1);
-				auto pol = parseMultivariatePolynomial<C>(nomAndDenom.front());
-				return {pol};
+				auto pol = parseMultivariatePolynomial<C,O,P>(nomAndDenom.front());
+				return RationalFunction<MultivariatePolynomial<C,O,P>>(pol);
 			}
 		}
 		
-- 
2.43.0


From 443bc27c0f03944491ad47dc32f38879ae57c2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:12:31 +0000
Subject: [PATCH 128/149] fix: a string with an invalid coefficient was read as
 a polynomial instead of being rejected

---
 src/carl/util/stringparser.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/carl/util/stringparser.h b/src/carl/util/stringparser.h
index 7de43a9..9b83eaa 100644
--- a/src/carl/util/stringparser.h
+++ b/src/carl/util/stringparser.h
@@ -270,21 +270,16 @@ namespace carl
 		C constructCoefficient(const std::string& inputString) const
 		{
             std::string inputStringCopy = inputString;
-            assert(!inputStringCopy.empty());
-            if( inputStringCopy[0] == '(' )
+            if( inputStringCopy.size() > 1 && inputStringCopy[0] == '(' && inputStringCopy.back() == ')' )
             {
-                assert(inputStringCopy.back() == ')');
                 inputStringCopy = inputStringCopy.substr( 1, inputStringCopy.size()-2 );
             }
-			try
-			{
-				return parse<C>(inputStringCopy);
-			}
-			catch(std::exception&)
+			C result;
+			if(!try_parse<C>(inputStringCopy, result))
 			{
 				throw InvalidInputStringException("Could not build coefficient", inputStringCopy);
 			}
-			
+			return result;
 		}
 		
 	};
-- 
2.43.0


From c5c302b0e6849cbe6011c35e4d41231d6a1a1e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:12:31 +0000
Subject: [PATCH 129/149] fix: a string with a repeated variable in a term was
 read as a malformed monomial instead of being rejected

---
 src/carl/util/stringparser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/stringparser.h b/src/carl/util/stringparser.h
index 9b83eaa..d6539e9 100644
--- a/src/carl/util/stringparser.h
+++ b/src/carl/util/stringparser.h
@@ -248,7 +248,7 @@ namespace carl
 			
 			std::sort(varExpPairs.begin(), varExpPairs.end(), [](const std::pair<Variable, exponent>& p1, const std::pair<Variable, exponent>& p2){ return p1.first < p2.first; });
 			size_t nrVariables = varExpPairs.size();
-			std::unique(varExpPairs.begin(), varExpPairs.end());
+			varExpPairs.erase(std::unique(varExpPairs.begin(), varExpPairs.end(), [](const std::pair<Variable, exponent>& p1, const std::pair<Variable, exponent>& p2){ return p1.first == p2.first; }), varExpPairs.end());
 			if(nrVariables != varExpPairs.size())
 			{
 				throw InvalidInputStringException("Variable occurs twice", inputStr);
-- 
2.43.0


From 377fa2ae1b5792f7f93268179ffa69ab88bd6498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:13:21 +0000
Subject: [PATCH 130/149] fix: a string with a negative exponent was read as a
 polynomial of huge degree instead of being rejected

---
 src/carl/util/stringparser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/carl/util/stringparser.h b/src/carl/util/stringparser.h
index d6539e9..fdf1f11 100644
--- a/src/carl/util/stringparser.h
+++ b/src/carl/util/stringparser.h
@@ -224,6 +224,10 @@ namespace carl
 						auto it = mVars.find(varAndExp.front());
 						if(it != mVars.end())
 						{
+							if(varAndExp.back().find('-') != std::string::npos)
+							{
+								throw InvalidInputStringException("Exponent is negative", veStr);
+							}
 							try
 							{
 								unsigned exp = boost::lexical_cast<unsigned>(varAndExp.back());
-- 
2.43.0


From 345c4ef358c970888d261fdf6c596a68336aefe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:13:54 +0000
Subject: [PATCH 131/149] fix: a string with a zero exponent was read as a
 malformed monomial

---
 src/carl/util/stringparser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/stringparser.h b/src/carl/util/stringparser.h
index fdf1f11..ba2d8af 100644
--- a/src/carl/util/stringparser.h
+++ b/src/carl/util/stringparser.h
@@ -231,7 +231,7 @@ namespace carl
 							try
 							{
 								unsigned exp = boost::lexical_cast<unsigned>(varAndExp.back());
-								varExpPairs.emplace_back(it->second, exp);
+								if(exp > 0) varExpPairs.emplace_back(it->second, exp);
 							}
 							catch(const boost::bad_lexical_cast&)
 							{
-- 
2.43.0


From a2ebbcc91b2fe45547ad22ec56a0a202ed0ebad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:16:46 +0000
Subject: [PATCH 132/149] fix: the polynomial parser multiplied whole sums
 instead of their neighbouring terms

---
 src/carl/util/parser/PolynomialParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/parser/PolynomialParser.h b/src/carl/util/parser/PolynomialParser.h
index efdbf4b..540822e 100644
--- a/src/carl/util/parser/PolynomialParser.h
+++ b/src/carl/util/parser/PolynomialParser.h
@@ -93,7 +93,7 @@ struct PolynomialParser: public qi::grammar<Iterator, Pol(), Skipper> {
 		monomial = ((variable >> ("^" >> number | qi::attr(typename Pol::CoeffType(1)))) % "*")[qi::_val = px::bind(&PolynomialParser<Pol>::newMonomial, px::ref(*this), qi::_1)];
 		term = (-number >> -monomial)[qi::_val = px::bind(&PolynomialParser<Pol>::newTerm, px::ref(*this), qi::_1, qi::_2)];
 		polynomial = (term >> *(operation >> term))[qi::_val = px::bind(&PolynomialParser<Pol>::addTerms, px::ref(*this), qi::_1, qi::_2)];
-		expr = ("(" >> expr_sum >> ")") | polynomial;
+		expr = ("(" >> expr_sum >> ")") | term;
 		expr_product = (expr % "*")[qi::_val = px::bind(&PolynomialParser<Pol>::mul, px::ref(*this), qi::_1)];
 		expr_sum = (expr_product >> *(operation >> expr_product))[qi::_val = px::bind(&PolynomialParser<Pol>::addPolynomials, px::ref(*this), qi::_1, qi::_2)];
 		main = expr_sum;
-- 
2.43.0


From 41d724ffd8aebaa7c56846b767adb816ea6daa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:17:59 +0000
Subject: [PATCH 133/149] fix: the polynomial parser took the power and
 division signs for parts of variable names

---
 src/carl/util/parser/PolynomialParser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/parser/PolynomialParser.h b/src/carl/util/parser/PolynomialParser.h
index 540822e..5a3c373 100644
--- a/src/carl/util/parser/PolynomialParser.h
+++ b/src/carl/util/parser/PolynomialParser.h
@@ -88,7 +88,7 @@ struct PolynomialParser: public qi::grammar<Iterator, Pol(), Skipper> {
 		expr(), expr_product(), expr_sum(), main()
 	{
 		operation.add("+", ADD)("-", SUB);
-		varname = qi::lexeme[ (qi::alpha | qi::char_("~!@$%^&_=<>.?/")) > *(qi::alnum | qi::char_("~!@$%^&_=<>.?/"))];
+		varname = qi::lexeme[ (qi::alpha | qi::char_("~!@$%&_=<>.?")) > *(qi::alnum | qi::char_("~!@$%&_=<>.?"))];
 		variable = (varmap[qi::_val = qi::_1]) | (varname[qi::_val = px::bind(&PolynomialParser<Pol>::newVariable, px::ref(*this), qi::_1)]);
 		monomial = ((variable >> ("^" >> number | qi::attr(typename Pol::CoeffType(1)))) % "*")[qi::_val = px::bind(&PolynomialParser<Pol>::newMonomial, px::ref(*this), qi::_1)];
 		term = (-number >> -monomial)[qi::_val = px::bind(&PolynomialParser<Pol>::newTerm, px::ref(*this), qi::_1, qi::_2)];
-- 
2.43.0


From 7c8e35ff821351e90e300e8c2036cda0b90cb690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:20 +0000
Subject: [PATCH 134/149] fix: writing a univariate polynomial in SMT-LIB
 syntax did not compile

---
 src/carl-io/SMTLIBStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl-io/SMTLIBStream.h b/src/carl-io/SMTLIBStream.h
index 95cd369..72696fc 100644
--- a/src/carl-io/SMTLIBStream.h
+++ b/src/carl-io/SMTLIBStream.h
@@ -202,7 +202,7 @@ private:
 				std::size_t exp = up.coefficients().size() - i - 1;
 				const auto& coeff = up.coefficients()[exp];
 				if (exp == 0) *this << " " << coeff;
-				else *this << " (* " << coeff << " " << Monomial(up.mainVar(), exp) << ")";
+				else *this << " (* " << coeff << " " << createMonomial(up.mainVar(), exp) << ")";
 			}
 			*this << ")";
 		}
-- 
2.43.0


From ab2495a5e9bbabfa9f7309c6a92813f12ad4d42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:25:54 +0000
Subject: [PATCH 135/149] fix: parts of formulas and monomials were not written
 in SMT-LIB syntax

---
 src/carl-io/SMTLIBStream.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/carl-io/SMTLIBStream.h b/src/carl-io/SMTLIBStream.h
index 72696fc..4dffd0e 100644
--- a/src/carl-io/SMTLIBStream.h
+++ b/src/carl-io/SMTLIBStream.h
@@ -35,6 +35,18 @@ private:
 	void write(const cln::cl_RA& n) { *this << carl::toString(n, false); }
 #endif
 
+	/// Writes the elements of a container in SMTLIB syntax, separated by spaces.
+	template<typename T>
+	SMTLIBStream& writeJoined(const T& container) {
+		bool first = true;
+		for (const auto& element: container) {
+			if (!first) *this << " ";
+			first = false;
+			*this << element;
+		}
+		return *this;
+	}
+
 	template<typename Pol>
 	void write(const Constraint<Pol>& c) {
 		if (c.relation() == Relation::NEQ) {
@@ -53,7 +65,8 @@ private:
 			case FormulaType::XOR:
 			case FormulaType::IMPLIES:
 			case FormulaType::ITE:
-				*this << "(" << f.getType() << " " << stream_joined(" ", f.subformulas()) << ")";
+				*this << "(" << f.getType() << " ";
+				writeJoined(f.subformulas()) << ")";
 				break;
 			case FormulaType::NOT:
 				*this << "(" << f.getType() << " " << f.subformula() << ")";
@@ -141,7 +154,8 @@ private:
 		if (m.exponents().empty()) *this << "1";
 		else if (m.exponents().size() == 1) *this << m.exponents().front();
 		else {
-			*this << "(* " << stream_joined(" ", m.exponents()) << ")";
+			*this << "(* ";
+			writeJoined(m.exponents()) << ")";
 		}
 	}
 	
@@ -190,7 +204,8 @@ private:
 	}
 
 	void write(const UFInstance& ufi) {
-		*this << "(" << ufi.uninterpretedFunction().name() << " " << stream_joined(" ", ufi.args()) << ")";
+		*this << "(" << ufi.uninterpretedFunction().name() << " ";
+		writeJoined(ufi.args()) << ")";
 	}
 	
 	template<typename Coeff>
-- 
2.43.0


From 252bfeb39022478087afcef9172d34f6cbee40fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:27:46 +0000
Subject: [PATCH 136/149] fix: Boolean values were written as numbers in
 SMT-LIB models

---
 src/carl-io/SMTLIBStream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl-io/SMTLIBStream.h b/src/carl-io/SMTLIBStream.h
index 4dffd0e..c22edec 100644
--- a/src/carl-io/SMTLIBStream.h
+++ b/src/carl-io/SMTLIBStream.h
@@ -28,6 +28,7 @@ class SMTLIBStream {
 private:
 	std::stringstream mStream;
 
+	void write(bool b) { *this << (b ? "true" : "false"); }
 	void write(const mpz_class& n) { *this << carl::toString(n, false); }
 	void write(const mpq_class& n) { *this << carl::toString(n, false); }
 #ifdef USE_CLN_NUMBERS
-- 
2.43.0


From e1cfc5c4b4f181103df8864d89fd961d50d7672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:49:25 +0000
Subject: [PATCH 137/149] fix: negative numbers and numbers modulo a power of
 two were not reduced to their representative

---
 src/carl/numbers/GaloisField.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/carl/numbers/GaloisField.h b/src/carl/numbers/GaloisField.h
index defe330..c004110 100644
--- a/src/carl/numbers/GaloisField.h
+++ b/src/carl/numbers/GaloisField.h
@@ -79,11 +79,13 @@ private:
 	}
 	
 	IntegerType symmetricModulo(const IntegerType& n) const	{
-		if (n > mMaxValue) {
-			return carl::mod(IntegerType(n-mModulus), mPK) - mMaxValue;
-		} else {
-			return carl::mod(n, mPK);
+		IntegerType res = carl::mod(n, mPK);
+		if (2 * res > mPK) {
+			res -= mPK;
+		} else if (2 * res <= -mPK) {
+			res += mPK;
 		}
+		return res;
 	}
 	
 	friend bool operator==(const GaloisField& lhs, const GaloisField& rhs) {
-- 
2.43.0


From 82f05a38700686a30d6040a098b12b6253f7d0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:49:25 +0000
Subject: [PATCH 138/149] fix: normalizing a number of a finite field had no
 effect

---
 src/carl/numbers/GFNumber.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/carl/numbers/GFNumber.h b/src/carl/numbers/GFNumber.h
index 39209de..0a4e2e8 100644
--- a/src/carl/numbers/GFNumber.h
+++ b/src/carl/numbers/GFNumber.h
@@ -49,9 +49,7 @@ class GFNumber
 	
 	void normalize()
 	{
-		if(isZero() || isUnit()) return;
-		assert(mGf != nullptr);
-		mGf->modulo(mN);
+		if(mGf != nullptr) mN = mGf->modulo(mN);
 	}
 	
 	bool isZero() const
-- 
2.43.0


From 42d57e7cc7cdb2131e0fbf88512f1a863cc4696c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:49:25 +0000
Subject: [PATCH 139/149] fix: updating a number of a finite field left it
 unreduced, so that zero and one were not recognised

---
 src/carl/numbers/GFNumber.tpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/carl/numbers/GFNumber.tpp b/src/carl/numbers/GFNumber.tpp
index c546ea6..2d43f87 100644
--- a/src/carl/numbers/GFNumber.tpp
+++ b/src/carl/numbers/GFNumber.tpp
@@ -116,6 +116,7 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator ++()
 {
 	mN++;
+	normalize();
 	return *this;
 }
 
@@ -127,6 +128,7 @@ GFNumber<IntegerType>& GFNumber<IntegerType>::operator +=(const GFNumber& rhs)
 		mGf = rhs.mGf;
 	}
 	mN += rhs.mN;
+	normalize();
 	return *this;
 }
 
@@ -134,6 +136,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator +=(const IntegerType& rhs)
 {
 	mN += rhs;
+	normalize();
 	return *this;
 }
 
@@ -159,6 +162,7 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator --()
 {
 	mN--;
+	normalize();
 	return *this;
 }
 
@@ -170,6 +174,7 @@ GFNumber<IntegerType>& GFNumber<IntegerType>::operator -=(const GFNumber& rhs)
 		mGf = rhs.mGf;
 	}
 	mN -= rhs.mN;
+	normalize();
 	return *this;
 }
 
@@ -177,6 +182,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator -=(const IntegerType& rhs)
 {
 	mN -= rhs;
+	normalize();
 	return *this;
 }
 
@@ -201,8 +207,12 @@ GFNumber<IntegerT> operator*(const IntegerT& lhs, const GFNumber<IntegerT>& rhs)
 template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator *=(const GFNumber& rhs)
 {
-	assert(rhs.mGf == nullptr || *mGf == *(rhs.mGf));
+	assert(mGf == nullptr || rhs.mGf == nullptr || *mGf == *(rhs.mGf));
+	if (mGf == nullptr) {
+		mGf = rhs.mGf;
+	}
 	mN *= rhs.mN;
+	normalize();
 	return *this;
 }
 
@@ -210,6 +220,7 @@ template<typename IntegerType>
 GFNumber<IntegerType>& GFNumber<IntegerType>::operator *=(const IntegerType& rhs)
 {
 	mN *= rhs;
+	normalize();
 	return *this;
 }
 
-- 
2.43.0


From 4a7a17332bc7b8dfd9a14fc64b0bdbf4f919f18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:49:25 +0000
Subject: [PATCH 140/149] fix: dividing a number of a finite field in place had
 no effect

---
 src/carl/numbers/GFNumber.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/numbers/GFNumber.tpp b/src/carl/numbers/GFNumber.tpp
index 2d43f87..b989d67 100644
--- a/src/carl/numbers/GFNumber.tpp
+++ b/src/carl/numbers/GFNumber.tpp
@@ -238,7 +238,7 @@ template<typename IntegerT>
 GFNumber<IntegerT>& GFNumber<IntegerT>::operator /=(const GFNumber<IntegerT>& rhs)
 {
 	assert(!rhs.isZero());
-	mN * rhs.inverse().mN;
+	*this = *this / rhs;
 	return *this;
 }
 
-- 
2.43.0


From c7fccfe221273140616971f061368e4470f0ef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:49:25 +0000
Subject: [PATCH 141/149] fix: a number of a finite field did not equal the
 integers of its residue class

---
 src/carl/numbers/GFNumber.tpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/carl/numbers/GFNumber.tpp b/src/carl/numbers/GFNumber.tpp
index b989d67..bec9f91 100644
--- a/src/carl/numbers/GFNumber.tpp
+++ b/src/carl/numbers/GFNumber.tpp
@@ -38,7 +38,7 @@ template<typename IntegerT>
 bool operator==(const GFNumber<IntegerT>& lhs, const IntegerT& rhs)
 {
 	assert(lhs.mGf != nullptr);
-	return lhs.mGf->modulo(lhs.mN) == rhs;
+	return lhs.mGf->modulo(lhs.mN - rhs) == 0;
 }
 template<typename IntegerT>
 bool operator==(const IntegerT& lhs, const GFNumber<IntegerT>& rhs)
@@ -50,10 +50,8 @@ bool operator==(const GFNumber<IntegerT>& lhs, int rhs)
 {
 	if(lhs.isZero() && rhs == 0) return true;
 	if(lhs.isUnit() && rhs == 1) return true;
-	if(lhs.isZero() && rhs != 0) return false;
-	if(lhs.isUnit() && rhs != 1) return false;
-	assert(lhs.mGf != nullptr);
-	return lhs.mGf->modulo(lhs.mN) == rhs;
+	if(lhs.mGf == nullptr) return lhs.mN == rhs;
+	return lhs.mGf->modulo(lhs.mN - rhs) == 0;
 }
 template<typename IntegerT>
 bool operator==(int lhs, const GFNumber<IntegerT>& rhs)
-- 
2.43.0


From 46f2047b3bd12e8f8168886d12ed9b8decbd26c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:51:23 +0000
Subject: [PATCH 142/149] fix: converting a polynomial over a finite field to
 an integer polynomial failed an assertion

---
 src/carl/core/UnivariatePolynomial.tpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/carl/core/UnivariatePolynomial.tpp b/src/carl/core/UnivariatePolynomial.tpp
index b6966d4..0aef403 100644
--- a/src/carl/core/UnivariatePolynomial.tpp
+++ b/src/carl/core/UnivariatePolynomial.tpp
@@ -362,7 +362,6 @@ UnivariatePolynomial<typename IntegralType<Coeff>::type> UnivariatePolynomial<Co
 	res.mCoefficients.reserve(mCoefficients.size());
 	for(const Coeff& c : mCoefficients)
 	{
-		assert(carl::isInteger(c));
 		res.mCoefficients.push_back(c.representingInteger());
 	}
 	res.stripLeadingZeroes();
-- 
2.43.0


From d2047c4e7db2b81e961984e6fe5c5eb16e2142ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:52:56 +0000
Subject: [PATCH 143/149] fix: the size of a large finite field overflowed

---
 src/carl/numbers/GaloisField.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/numbers/GaloisField.h b/src/carl/numbers/GaloisField.h
index c004110..bd804ac 100644
--- a/src/carl/numbers/GaloisField.h
+++ b/src/carl/numbers/GaloisField.h
@@ -48,7 +48,7 @@ private:
      */
 	explicit GaloisField(BaseIntType p, BaseIntType k = 1):
 		mP(p), mK(k),
-		mPK(pow(p,k)),
+		mPK(carl::pow(IntegerType(p),k)),
 		mMaxValue((mPK-1)/2),
 		mModulus(mMaxValue+1)
 	{ 
-- 
2.43.0


From 1d6fbd381c4c7a11dcad38467726e03dc316c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:55:17 +0000
Subject: [PATCH 144/149] fix: a scaled polynomial over a finite ring kept
 leading coefficients that became zero

---
 src/carl/numbers/typetraits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/carl/numbers/typetraits.h b/src/carl/numbers/typetraits.h
index 6af73ba..cf5c1e0 100644
--- a/src/carl/numbers/typetraits.h
+++ b/src/carl/numbers/typetraits.h
@@ -152,11 +152,11 @@ struct is_finite: std::integral_constant<bool, std::is_fundamental<T>::value> {}
 
 /**
  * Type trait is_finite_domain.
- * Default is false.
+ * States that a Gallois field is finite.
  * @ingroup typetraits_is_finite
  */
 template<typename C>
-struct is_finite<GFNumber<C>>: std::false_type {};
+struct is_finite<GFNumber<C>>: std::true_type {};
 
 /**
  * @addtogroup typetraits_is_float is_float
-- 
2.43.0


From 2d69fb7d47e77ef839fff23b518a90c0f1a5d694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:03:46 +0000
Subject: [PATCH 145/149] fix: reading a fraction with denominator zero crashed
 instead of being rejected

---
 src/carl/numbers/parser/parser.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/carl/numbers/parser/parser.h b/src/carl/numbers/parser/parser.h
index fc29c59..1471f43 100644
--- a/src/carl/numbers/parser/parser.h
+++ b/src/carl/numbers/parser/parser.h
@@ -111,13 +111,15 @@ namespace parser {
 	template<typename T, typename Iterator = std::string::const_iterator>
 	struct RationalParser: public qi::grammar<Iterator, T(), Skipper> {
 		RationalParser(): RationalParser::base_type(main, "rational") {
-			main = (number >> -(qi::lit('/') >> number))[qi::_val = px::bind(&RationalParser::makeRational, px::ref(*this), qi::_1, qi::_2)];
+			main = (number >> -(qi::lit('/') >> number))[qi::_pass = px::bind(&RationalParser::makeRational, px::ref(*this), qi::_1, qi::_2, qi::_val)];
 		}
 		DecimalParser<T> number;
 		qi::rule<Iterator, T(), Skipper> main;
-		T makeRational(const T& a, const boost::optional<T>& b) const {
-			if (!b) return a;
-			return a / *b;
+		bool makeRational(const T& a, const boost::optional<T>& b, T& res) const {
+			if (b && isZero(*b)) return false;
+			if (b) res = a / *b;
+			else res = a;
+			return true;
 		}
 	};
 	
-- 
2.43.0


From cb8e4a78f5da087a694414cf53a4c8c670070f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:44:22 +0000
Subject: [PATCH 146/149] fix: selecting all sets of an empty set cover did not
 terminate

---
 src/carl-covering/heuristics/trivial.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl-covering/heuristics/trivial.cpp b/src/carl-covering/heuristics/trivial.cpp
index daa27cd..fd3da54 100644
--- a/src/carl-covering/heuristics/trivial.cpp
+++ b/src/carl-covering/heuristics/trivial.cpp
@@ -7,7 +7,7 @@ namespace carl::covering::heuristic {
 /// Trivial heuristic: select all sets.
 Bitset trivial(SetCover& sc) {
 	Bitset result;
-	result.set_interval(0, sc.set_count() - 1);
+	if (sc.set_count() > 0) result.set_interval(0, sc.set_count() - 1);
 	return result;
 }
 
-- 
2.43.0


From f54b92074073eb1220f67b7f95c1ccfa5a499d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:44:22 +0000
Subject: [PATCH 147/149] fix: writing a bit beyond the stored ones cleared the
 bits in between of a bitset that is set by default

---
 src/carl/util/Bitset.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index 8ea0fac..c67ddf5 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -92,7 +92,7 @@ namespace carl {
 		/// Resize mData to hold at least pos bits.
 		void ensureSize(std::size_t pos) {
 			if (pos >= mData.size()) {
-				mData.resize(pos+1);
+				mData.resize(pos+1, mDefault);
 			}
 		}
 	public:
-- 
2.43.0


From 44a5447066f8c868511cb5060a43a566eada04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:44:38 +0000
Subject: [PATCH 148/149] fix: intersecting or uniting bitsets in place ignored
 the bits beyond the stored ones

---
 src/carl/util/Bitset.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/carl/util/Bitset.h b/src/carl/util/Bitset.h
index c67ddf5..d624fdc 100644
--- a/src/carl/util/Bitset.h
+++ b/src/carl/util/Bitset.h
@@ -127,12 +127,14 @@ namespace carl {
 		Bitset& operator&=(const Bitset& rhs) {
 			alignSize(*this, rhs);
 			mData &= rhs.mData;
+			mDefault = mDefault && rhs.mDefault;
 			return *this;
 		}
 		/// Computes the bitwise or with rhs.
 		Bitset& operator|=(const Bitset& rhs) {
 			alignSize(*this, rhs);
 			mData |= rhs.mData;
+			mDefault = mDefault || rhs.mDefault;
 			return *this;
 		}
 		
-- 
2.43.0


From b50b1a555497ffdb075b5937c4fd6c2e1ce945d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:59:50 +0000
Subject: [PATCH 149/149] fix: a constant term is not divisible by a monomial

---
 src/carl/core/Term.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/carl/core/Term.tpp b/src/carl/core/Term.tpp
index 6403d06..7deec99 100644
--- a/src/carl/core/Term.tpp
+++ b/src/carl/core/Term.tpp
@@ -99,6 +99,7 @@ bool Term<Coefficient>::divide(const Monomial::Arg& m, Term& res) const
 		}
 		return false;
 	}
+	if (m) return false;
 	res = *this;
 	return true;
 }
-- 
2.43.0

