From c0b78d9c10b6827dbb539ad4207a2879c3bf770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:47 +0000
Subject: [PATCH 01/42] fix: IDList::unionList(only_literal) returns the number
 of literals it added

---
 Query/IDList.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Query/IDList.cpp b/Query/IDList.cpp
index 9588ad9..439717a 100644
--- a/Query/IDList.cpp
+++ b/Query/IDList.cpp
@@ -298,9 +298,10 @@ IDList::unionList(const unsigned* _id_list, unsigned _list_len, bool only_litera
 				break;
 
 		//TODO+BETTER: speed up the process to find the first literal
+		unsigned add_number = _list_len - k;
 		for (; k < _list_len; ++k)
 			this->addID(_id_list[k]);
-		return _list_len - k;
+		return add_number;
 	}
 	// O(n)
 	unsigned origin_size = (this->id_list).size();
-- 
2.43.0


From 1673ff3989a927e06f9ce177612060ab9f27db8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 02/42] fix: IDListWithAppending::Intersect keeps the
 intersection it computed

---
 Query/IDList.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Query/IDList.cpp b/Query/IDList.cpp
index 439717a..6547d89 100644
--- a/Query/IDList.cpp
+++ b/Query/IDList.cpp
@@ -680,4 +680,5 @@ void IDListWithAppending::Intersect(const TYPE_ENTITY_LITERAL_ID* id_list, size_
   else
     throw string("Merge method error");
 
+  this->contents_ = new_content;
 }
\ No newline at end of file
-- 
2.43.0


From cc4f77420f51b0d63e7576830d31977998447d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:56 +0000
Subject: [PATCH 03/42] fix: IDTriple orderings are strict (a triple is not
 less than itself)

---
 Util/IDTriple.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Util/IDTriple.cpp b/Util/IDTriple.cpp
index 7727695..5c1447f 100644
--- a/Util/IDTriple.cpp
+++ b/Util/IDTriple.cpp
@@ -11,8 +11,7 @@ bool IDTriple::operator < (const IDTriple& a) const
 		else if(this->predicate > a.get_predicate()) return false;
 		else
 		{
-			if(this->object <= a.get_object()) return true;
-			else if(this->object > a.get_object()) return false;
+			return this->object < a.get_object();
 		}
 	}
 	assert(false);
@@ -21,7 +20,7 @@ bool IDTriple::operator < (const IDTriple& a) const
 
 bool IDTriple::operator > (const IDTriple& a) const
 {
-	return !(*this < a );
+	return a < *this;
 }
 
 bool IDTriple::operator = (const IDTriple& a) const
-- 
2.43.0


From 5487b6f7c5cbc61be40ad67a2566744620f296a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 04/42] fix: GLatch::get_readers and get_TID return the whole
 64-bit value

---
 Util/GraphLock.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Util/GraphLock.h b/Util/GraphLock.h
index 9c25d47..7423ddb 100644
--- a/Util/GraphLock.h
+++ b/Util/GraphLock.h
@@ -85,13 +85,13 @@ struct GLatch{
     }
     ull get_readers(){
         latch.lock();
-        int ret = _RCNT;
+        ull ret = _RCNT;
         latch.unlock();
         return ret;
     };
     ull get_TID(){
         latch.lock();
-        int ret = _TID;
+        ull ret = _TID;
         latch.unlock();
         return ret;
     }
-- 
2.43.0


From fd0977b8b579e5ad4bad68d49d715fec60c5707b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:18 +0000
Subject: [PATCH 05/42] fix: GLatch::tryupgradelatch refuses an exclusively
 held latch instead of aborting

---
 Util/GraphLock.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Util/GraphLock.cpp b/Util/GraphLock.cpp
index dd22375..f7fb13d 100644
--- a/Util/GraphLock.cpp
+++ b/Util/GraphLock.cpp
@@ -127,7 +127,6 @@ bool GLatch::tryupgradelatch(ull TID)
         }
     }
     latch.unlock();
-    if(ret == false) assert(_TID == INVALID_TID);
     return ret;
 }
 
-- 
2.43.0


From e8f3bf7555043d4473cff4e087eaeeaa2ebc9075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:32 +0000
Subject: [PATCH 06/42] fix: spinlock::try_lock answers true when the lock was
 taken

---
 Util/SpinLock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Util/SpinLock.h b/Util/SpinLock.h
index b101c65..82f30bf 100644
--- a/Util/SpinLock.h
+++ b/Util/SpinLock.h
@@ -20,7 +20,7 @@ struct spinlock {
   }
 
   bool try_lock(){
-    return pthread_spin_trylock(&_lock);
+    return pthread_spin_trylock(&_lock) == 0;
   }
   void unlock(){
     pthread_spin_unlock(&_lock);
-- 
2.43.0


From 11a2dd268da7f7a2744beb97b5f0655fb1f70733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 07/42] fix: a version's last operation on a pair decides,
 whatever the list held before

---
 Util/Version.cpp | 58 ++++++++++++++++++++++++++++++++++++++----------
 Util/Version.h   |  2 ++
 2 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/Util/Version.cpp b/Util/Version.cpp
index cf2481c..cdf5b77 100644
--- a/Util/Version.cpp
+++ b/Util/Version.cpp
@@ -54,8 +54,45 @@ void Version::expand(int num)
 	}
 }
 
+//the last operation on a pair decides: forget an earlier removal of it
+void Version::drop_removed(const VData& value)
+{
+	unsigned i = 0;
+	while(i < data[2])
+	{
+		unsigned pos = data[0]-1-2*i;
+		if(data[pos] == value.first && data[pos-1] == value.second)
+		{
+			unsigned last = data[0]+1-2*data[2];
+			data[pos] = data[last];
+			data[pos-1] = data[last-1];
+			data[2]--;
+		}
+		else i++;
+	}
+}
+
+//the last operation on a pair decides: forget an earlier addition of it
+void Version::drop_added(const VData& value)
+{
+	unsigned i = 0;
+	while(i < data[1])
+	{
+		unsigned pos = 2*i+4;
+		if(data[pos] == value.first && data[pos+1] == value.second)
+		{
+			unsigned last = 2*data[1]+2;
+			data[pos] = data[last];
+			data[pos+1] = data[last+1];
+			data[1]--;
+		}
+		else i++;
+	}
+}
+
 void Version::add(VData value)
 {
+	drop_removed(value);
 	expand(1);
 	data[2*data[1]+4] = value.first;
 	data[2*data[1]+5] = value.second;
@@ -64,6 +101,7 @@ void Version::add(VData value)
 
 void Version::remove(VData value)
 {
+	drop_added(value);
 	expand(1);
 	data[data[0]-1-2*data[2]] = value.first;
 	data[data[0]-2-2*data[2]] = value.second;
@@ -75,6 +113,7 @@ void Version::batch_add(VDataArray& values)
     expand(values.size());
     for(auto value: values)
     {
+        drop_removed(value);
         data[2*data[1]+4] = value.first;
         data[2*data[1]+5] = value.second;
         data[1]++;
@@ -86,6 +125,7 @@ void Version::batch_remove(VDataArray& values)
     expand(values.size());
     for(auto value: values)
     {
+        drop_added(value);
         data[data[0]-1-2*data[2]] = value.first;
         data[data[0]-2-2*data[2]] = value.second;
         data[2]++;
@@ -104,33 +144,27 @@ void Version::get_del_set(VDataSet& del_set) const
 {
 	for(int i = static_cast<int>(data[0])-1; i > static_cast<int>(data[0])-1-2*static_cast<int>(data[2]); i-=2)
 	{
-		del_set.insert({data[i], data[i+1]});
+		del_set.insert({data[i], data[i-1]});
 	}
 }
 
 void Version::get_version(VDataSet& add_set, VDataSet& del_set) const
 {
 	//print_data();
+	//a later version overrides the earlier ones: the list may hold the pair already, or not hold it at all
 	for(unsigned i = 4; i < 2*data[1] + 4; i+=2)
 	{
 		VData p = {data[i], data[i+1]};
-		auto del_it = del_set.find(p);
-		if(del_it == del_set.end()){
-			add_set.insert(p);
-		}
-		else del_set.erase(del_it);
+		del_set.erase(p);
+		add_set.insert(p);
 	}
 
 
 	for(int i = static_cast<int>(data[0])-1; i > static_cast<int>(data[0])-1-2*static_cast<int>(data[2]); i-=2)
 	{
 		VData p = {data[i], data[i-1]};
-		auto add_it = add_set.find(p);
-		if(add_it == add_set.end())
-		{
-			del_set.insert(p);
-		} 
-		else add_set.erase(add_it);
+		add_set.erase(p);
+		del_set.insert(p);
 	}
 }
 
diff --git a/Util/Version.h b/Util/Version.h
index 751b4ac..5a81d47 100644
--- a/Util/Version.h
+++ b/Util/Version.h
@@ -16,6 +16,8 @@ private:
 	TYPE_ENTITY_LITERAL_ID * data;
 	TYPE_TXN_ID begin_ts;
 	TYPE_TXN_ID end_ts;
+	void drop_removed(const VData& value);
+	void drop_added(const VData& value);
 public:
 	Version();
 	Version(TYPE_TXN_ID _begin_ts, TYPE_TXN_ID _end_ts);
-- 
2.43.0


From d7542d7259dbc87bdd96ab80c91efd1cb4a2e06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:37 +0000
Subject: [PATCH 08/42] fix: the versioned flag of a new IVEntry is set, not
 compared with an uninitialised byte

---
 KVstore/IVArray/IVEntry.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/KVstore/IVArray/IVEntry.cpp b/KVstore/IVArray/IVEntry.cpp
index a322f92..6a4ae76 100644
--- a/KVstore/IVArray/IVEntry.cpp
+++ b/KVstore/IVArray/IVEntry.cpp
@@ -387,15 +387,14 @@ IVEntry::UnLatch(shared_ptr<Transaction> txn, LatchType latch_type)
 void 
 IVEntry::setVersionFlag()
 {
-	bool expected = false;
-	is_versioned.compare_exchange_strong(expected, true);
+	is_versioned.store(true);
 }
 
 void 
 IVEntry::clearVersionFlag()
 {
-	bool expected = true;
-	is_versioned.compare_exchange_strong(expected, false);
+	//the constructor comes here with the flag not initialised yet
+	is_versioned.store(false);
 }
 
 void
-- 
2.43.0


From ac9c1fc8746b1e7d115b0709211d88936a49fa01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 09/42] fix: growing an array to a key that equals a
 power-of-two size left the key outside it

---
 KVstore/IVArray/IVArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index cc80060..3440deb 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -354,7 +354,7 @@ IVArray::insert(unsigned _key, char *_str, unsigned long _len)
 		unsigned OldEntryNum = CurEntryNum;
 //		CurEntryNum = max(CurEntryNum + IVArray::SET_KEY_INC, temp);
 		CurEntryNum = IVMIN(OldEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
-		while (_key > CurEntryNum)
+		while (_key >= CurEntryNum)
 		{
 			CurEntryNum = IVMIN(CurEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
 		}
@@ -697,7 +697,7 @@ IVArray::TryExclusiveLatch(unsigned _key, shared_ptr<Transaction> txn, bool has_
 			//assuming one expand is enough
 			unsigned OldEntryNum = CurEntryNum;
 			CurEntryNum = IVMIN(OldEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
-			while (_key > CurEntryNum)
+			while (_key >= CurEntryNum)
 			{
 				CurEntryNum = IVMIN(CurEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
 			}
-- 
2.43.0


From 70d4d97b0cbdd46679be500a631778813d3b060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 10/42] fix: SIHeap::modify went down one level only: follow
 the moved node to its new children

---
 KVstore/SITree/heap/SIHeap.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/KVstore/SITree/heap/SIHeap.cpp b/KVstore/SITree/heap/SIHeap.cpp
index 2b37070..c574dab 100644
--- a/KVstore/SITree/heap/SIHeap.cpp
+++ b/KVstore/SITree/heap/SIHeap.cpp
@@ -187,6 +187,7 @@ SIHeap::modify(SINode* _np, bool _flag)
         heap[j] = _np;
         heap[j]->heapId = j;
         i = j;
+        j = 2 * i + 1;
       }
       else
         break;
-- 
2.43.0


From 15c0e2c31af0d53a991f79f697a86a0a97d38775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 11/42] fix: SIHeap::Insert wrote outside a heap of capacity 0,
 which doubling never grows

---
 KVstore/SITree/heap/SIHeap.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/KVstore/SITree/heap/SIHeap.cpp b/KVstore/SITree/heap/SIHeap.cpp
index c574dab..1e4e258 100644
--- a/KVstore/SITree/heap/SIHeap.cpp
+++ b/KVstore/SITree/heap/SIHeap.cpp
@@ -66,13 +66,14 @@ SIHeap::Insert(SINode* _np)
   if (this->length == this->size)	//when full, reallocate
   {
     cout<<"check: double the heap"<<endl;
-    this->heap = (SINode**)realloc(this->heap, 2 * this->size * sizeof(SINode*));
+    unsigned new_size = this->size == 0 ? 1 : 2 * this->size;
+    this->heap = (SINode**)realloc(this->heap, new_size * sizeof(SINode*));
     if (this->heap == NULL)
     {
       print("error in isert: Reallocation fail!");
       return false;
     }
-    this->size = 2 * this->size;
+    this->size = new_size;
   }
   // the inserted position
   unsigned int i = this->length;
-- 
2.43.0


From a6077b6bc96479f936c718625657c43a5833760e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 12/42] fix: the score of an FQ node was left out of its first
 answer and added again for every later one

---
 Query/topk/DPB/OrderedList.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Query/topk/DPB/OrderedList.cpp b/Query/topk/DPB/OrderedList.cpp
index b6727eb..c24b825 100644
--- a/Query/topk/DPB/OrderedList.cpp
+++ b/Query/topk/DPB/OrderedList.cpp
@@ -145,7 +145,7 @@ void FQIterator::TryGetNext(unsigned int k) {
   // get first
   if(this->pool_.size()==0)
   {
-    double cost = 0;
+    double cost = this->node_score_;
     for(unsigned int j =0; j<this->fr_ow_iterators_.size(); j++)
     {
       if(!FQIterator::NextEPoolElement(k, this->fr_ow_iterators_[j], 0))
@@ -192,7 +192,6 @@ void FQIterator::TryGetNext(unsigned int k) {
   }
   if(!queue_.empty()) {
     auto inserted = this->queue_.findMin();
-    inserted.cost += this->node_score_;
     this->e_pool_.push_back(inserted);
     // transfer e pool to i pool element
     DPB::element e{};
-- 
2.43.0


From 7d9de912afa3d6f9c0e54f17f526c53a8677f492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:46 +0000
Subject: [PATCH 13/42] fix: asking an FR without any FQ for its first answer
 threw instead of giving none

---
 Query/topk/DPB/OrderedList.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Query/topk/DPB/OrderedList.cpp b/Query/topk/DPB/OrderedList.cpp
index c24b825..0cb578f 100644
--- a/Query/topk/DPB/OrderedList.cpp
+++ b/Query/topk/DPB/OrderedList.cpp
@@ -6,14 +6,14 @@
 
 // getFirst() also implemented here
 void FRIterator::TryGetNext(unsigned int k) {
+  if(this->queue_.empty())
+    return;
   // get first
   if(this->pool_.size()==0)
   {
     this->pool_.push_back(this->queue_.findMin());
     return;
   }
-  if(this->queue_.empty())
-    return;
 
   auto em = this->pool_.back();
   auto em_pointer = this->fqs_map_[em.node];
-- 
2.43.0


From 5f3182bffe97057d43e8854c912ce18b5e4e1266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 14/42] fix: KVstore: removing from an empty list leaves the
 result list unset

---
 KVstore/KVstore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/KVstore/KVstore.cpp b/KVstore/KVstore.cpp
index 4eceb11..e6480b3 100644
--- a/KVstore/KVstore.cpp
+++ b/KVstore/KVstore.cpp
@@ -1021,6 +1021,8 @@ KVstore::Remove_s2values(const vector<unsigned> &_pidoidlist, unsigned* _tmp,  u
 	int update_num = 0;
 	if (!_len) 
 	{
+		values = _tmp;
+		values_len = _len;
 		return 0;
 	}
 
@@ -2145,6 +2147,8 @@ KVstore::Remove_p2values(const std::vector<unsigned>& _sidoidlist, unsigned* _tm
     }
 	
 	if (!_len) {
+		values = _tmp;
+		values_len = _len;
 		return 0;
 	}
 
-- 
2.43.0


From 93f004cd50b278d3a58e41505b1e2fabc99e3535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 15/42] fix: an integer divided by zero in a FILTER ends the
 process instead of being an error value

---
 Util/EvalMultitypeValue.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 32c31c9..0e01284 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -923,6 +923,9 @@ EvalMultitypeValue
 	this->getSameNumericType(x);
 	if (datatype == xsd_integer)
 	{
+		// integer division by zero (or beyond the range) is an error value
+		if (x.int_value == 0 || (x.int_value == -1 && int_value == -2147483647 - 1))
+			return ret_femv;
 		ret_femv.datatype = xsd_integer;
 		ret_femv.int_value = int_value / x.int_value;
 	}
-- 
2.43.0


From e82361a6cdfda71918882d461035aaa29ef83fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 16/42] fix: calculating with xsd:long values gives an error,
 and their representation the wrong number

---
 Util/EvalMultitypeValue.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 0e01284..24d4e74 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -711,8 +711,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-			|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if (datatype < xsd_integer || datatype > xsd_double || x.datatype < xsd_integer || x.datatype > xsd_double)
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -734,7 +733,7 @@ EvalMultitypeValue
 	else if (datatype == xsd_long)
 	{
 		ret_femv.datatype = xsd_long;
-		ret_femv.flt_value = long_value + x.long_value;
+		ret_femv.long_value = long_value + x.long_value;
 	}
 	else if (datatype == xsd_double)
 	{
@@ -753,7 +752,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double)
+	if (datatype < xsd_integer || datatype > xsd_double)
 		return ret_femv;
 
 	if (datatype == xsd_integer)
@@ -832,8 +831,7 @@ EvalMultitypeValue
 		return ret_femv;
 	}
 	
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-		|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if (datatype < xsd_integer || datatype > xsd_double || x.datatype < xsd_integer || x.datatype > xsd_double)
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -874,8 +872,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-			|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if (datatype < xsd_integer || datatype > xsd_double || x.datatype < xsd_integer || x.datatype > xsd_double)
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -916,8 +913,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-			|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if (datatype < xsd_integer || datatype > xsd_double || x.datatype < xsd_integer || x.datatype > xsd_double)
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -941,6 +937,8 @@ EvalMultitypeValue
 	}
 	else if (datatype == xsd_long)
 	{
+		if (x.long_value == 0 || (x.long_value == -1 && long_value == -9223372036854775807LL - 1))
+			return ret_femv;
 		ret_femv.datatype = xsd_long;
 		ret_femv.long_value = long_value / x.long_value;
 	}
@@ -1153,7 +1151,7 @@ string EvalMultitypeValue::getRep()
 	else if (datatype == EvalMultitypeValue::xsd_integer)
 		ret = "\"" + to_string(int_value) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
 	else if (datatype == EvalMultitypeValue::xsd_long)
-		ret = "\"" + to_string(int_value) + "\"^^<http://www.w3.org/2001/XMLSchema#long>";
+		ret = "\"" + to_string(long_value) + "\"^^<http://www.w3.org/2001/XMLSchema#long>";
 	else if (datatype == EvalMultitypeValue::xsd_decimal)
 		ret = "\"" + to_string(flt_value) + "\"^^<http://www.w3.org/2001/XMLSchema#decimal>";
 	else if (datatype == EvalMultitypeValue::xsd_float)
-- 
2.43.0


From 0d2fb434163f4c241bafc7776d741c91a0c53151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 17/42] fix: comparing or calculating with values of two
 numeric types changed the operands, cut decimals down to longs and failed for
 a float and a long

---
 Util/EvalMultitypeValue.cpp | 83 ++++++++++++++++++++++++++++++++-----
 1 file changed, 73 insertions(+), 10 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 24d4e74..ecfb61a 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -212,6 +212,9 @@ void EvalMultitypeValue::convert2Type(EvalMultitypeValue::DataType to_type)
 void EvalMultitypeValue::getSameNumericType (EvalMultitypeValue &x)
 {
 	DataType to_type = max(this->datatype, x.datatype);
+	// a long has no exact place among decimals and floats, and they none among longs
+	if (this->datatype != x.datatype && to_type == xsd_long && min(this->datatype, x.datatype) != xsd_integer)
+		to_type = xsd_double;
 	if (this->datatype != to_type)
 		this->convert2Type(to_type);
 	if (x.datatype != to_type)
@@ -296,7 +299,13 @@ EvalMultitypeValue
 
 	if (xsd_integer <= this->datatype && this->datatype <= xsd_double && xsd_integer <= x.datatype && x.datatype <= xsd_double)
 	{
-		this->getSameNumericType(x);
+		if (this->datatype != x.datatype)	// promote copies: the operands stay what they are
+		{
+			EvalMultitypeValue left(*this), right(x);
+			left.getSameNumericType(right);
+			return left == right;
+		}
+
 
 		if (this->datatype == xsd_integer && x.datatype == xsd_integer)
 			ret_femv.bool_value = (this->int_value == x.int_value);
@@ -375,7 +384,13 @@ EvalMultitypeValue
 
 	if (xsd_integer <= this->datatype && this->datatype <= xsd_double && xsd_integer <= x.datatype && x.datatype <= xsd_double)
 	{
-		this->getSameNumericType(x);
+		if (this->datatype != x.datatype)	// promote copies: the operands stay what they are
+		{
+			EvalMultitypeValue left(*this), right(x);
+			left.getSameNumericType(right);
+			return left != right;
+		}
+
 
 		if (this->datatype == xsd_integer && x.datatype == xsd_integer)
 			ret_femv.bool_value = (this->int_value != x.int_value);
@@ -439,7 +454,13 @@ EvalMultitypeValue
 
 	if (xsd_integer <= this->datatype && this->datatype <= xsd_double && xsd_integer <= x.datatype && x.datatype <= xsd_double)
 	{
-		this->getSameNumericType(x);
+		if (this->datatype != x.datatype)	// promote copies: the operands stay what they are
+		{
+			EvalMultitypeValue left(*this), right(x);
+			left.getSameNumericType(right);
+			return left < right;
+		}
+
 
 		if (this->datatype == xsd_integer && x.datatype == xsd_integer)
 			ret_femv.bool_value = (this->int_value < x.int_value);
@@ -511,7 +532,13 @@ EvalMultitypeValue
 
 	if (xsd_integer <= this->datatype && this->datatype <= xsd_double && xsd_integer <= x.datatype && x.datatype <= xsd_double)
 	{
-		this->getSameNumericType(x);
+		if (this->datatype != x.datatype)	// promote copies: the operands stay what they are
+		{
+			EvalMultitypeValue left(*this), right(x);
+			left.getSameNumericType(right);
+			return left <= right;
+		}
+
 
 		if (this->datatype == xsd_integer && x.datatype == xsd_integer)
 			ret_femv.bool_value = (this->int_value <= x.int_value);
@@ -581,7 +608,13 @@ EvalMultitypeValue
 
 	if (xsd_integer <= this->datatype && this->datatype <= xsd_double && xsd_integer <= x.datatype && x.datatype <= xsd_double)
 	{
-		this->getSameNumericType(x);
+		if (this->datatype != x.datatype)	// promote copies: the operands stay what they are
+		{
+			EvalMultitypeValue left(*this), right(x);
+			left.getSameNumericType(right);
+			return left > right;
+		}
+
 
 		if (this->datatype == xsd_integer && x.datatype == xsd_integer)
 			ret_femv.bool_value = (this->int_value > x.int_value);
@@ -651,7 +684,13 @@ EvalMultitypeValue
 
 	if (xsd_integer <= this->datatype && this->datatype <= xsd_double && xsd_integer <= x.datatype && x.datatype <= xsd_double)
 	{
-		this->getSameNumericType(x);
+		if (this->datatype != x.datatype)	// promote copies: the operands stay what they are
+		{
+			EvalMultitypeValue left(*this), right(x);
+			left.getSameNumericType(right);
+			return left >= right;
+		}
+
 
 		if (this->datatype == xsd_integer && x.datatype == xsd_integer)
 			ret_femv.bool_value = (this->int_value >= x.int_value);
@@ -714,7 +753,13 @@ EvalMultitypeValue
 	if (datatype < xsd_integer || datatype > xsd_double || x.datatype < xsd_integer || x.datatype > xsd_double)
 		return ret_femv;
 
-	this->getSameNumericType(x);
+	if (this->datatype != x.datatype)	// promote copies: the operands stay what they are
+	{
+		EvalMultitypeValue left(*this), right(x);
+		left.getSameNumericType(right);
+		return left + right;
+	}
+
 	if (datatype == xsd_integer)
 	{
 		ret_femv.datatype = xsd_integer;
@@ -834,7 +879,13 @@ EvalMultitypeValue
 	if (datatype < xsd_integer || datatype > xsd_double || x.datatype < xsd_integer || x.datatype > xsd_double)
 		return ret_femv;
 
-	this->getSameNumericType(x);
+	if (this->datatype != x.datatype)	// promote copies: the operands stay what they are
+	{
+		EvalMultitypeValue left(*this), right(x);
+		left.getSameNumericType(right);
+		return left - right;
+	}
+
 	if (datatype == xsd_integer)
 	{
 		ret_femv.datatype = xsd_integer;
@@ -875,7 +926,13 @@ EvalMultitypeValue
 	if (datatype < xsd_integer || datatype > xsd_double || x.datatype < xsd_integer || x.datatype > xsd_double)
 		return ret_femv;
 
-	this->getSameNumericType(x);
+	if (this->datatype != x.datatype)	// promote copies: the operands stay what they are
+	{
+		EvalMultitypeValue left(*this), right(x);
+		left.getSameNumericType(right);
+		return left * right;
+	}
+
 	if (datatype == xsd_integer)
 	{
 		ret_femv.datatype = xsd_integer;
@@ -916,7 +973,13 @@ EvalMultitypeValue
 	if (datatype < xsd_integer || datatype > xsd_double || x.datatype < xsd_integer || x.datatype > xsd_double)
 		return ret_femv;
 
-	this->getSameNumericType(x);
+	if (this->datatype != x.datatype)	// promote copies: the operands stay what they are
+	{
+		EvalMultitypeValue left(*this), right(x);
+		left.getSameNumericType(right);
+		return left / right;
+	}
+
 	if (datatype == xsd_integer)
 	{
 		// integer division by zero (or beyond the range) is an error value
-- 
2.43.0


From 6452671c8a68b8261e582ab87d75417ef1b2483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 18/42] fix: >, <= and >= of literals with language tags are
 errors where < is not, and != does not negate =

---
 Util/EvalMultitypeValue.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index ecfb61a..30bdb6b 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -407,7 +407,7 @@ EvalMultitypeValue
 		return ret_femv;
 	}
 
-	if (this->isSimpleLiteral() && x.isSimpleLiteral())
+	if (this->datatype == literal && x.datatype == literal)
 	{
 		ret_femv.bool_value = (this->str_value != x.str_value);
 
@@ -555,7 +555,7 @@ EvalMultitypeValue
 		return ret_femv;
 	}
 
-	if (this->isSimpleLiteral() && x.isSimpleLiteral())
+	if (this->datatype == literal && x.datatype == literal)
 	{
 		ret_femv.bool_value = (this->str_value <= x.str_value);
 
@@ -631,7 +631,7 @@ EvalMultitypeValue
 		return ret_femv;
 	}
 
-	if (this->isSimpleLiteral() && x.isSimpleLiteral())
+	if (this->datatype == literal && x.datatype == literal)
 	{
 		ret_femv.bool_value = (this->str_value > x.str_value);
 
@@ -707,7 +707,7 @@ EvalMultitypeValue
 		return ret_femv;
 	}
 
-	if (this->isSimpleLiteral() && x.isSimpleLiteral())
+	if (this->datatype == literal && x.datatype == literal)
 	{
 		ret_femv.bool_value = (this->str_value >= x.str_value);
 
-- 
2.43.0


From e21e20b3d83f60624767fe66c8209a4639903306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 19/42] fix: the time of day of an xsd:date is read from beyond
 its parts

---
 Util/EvalMultitypeValue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 30bdb6b..45b4772 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -1125,6 +1125,7 @@ void EvalMultitypeValue::deduceTypeValue()
 					if (p >= contentLen && i < 5)
 						return;
 				}
+				date.resize(6);	// an xsd:date has no time of day
 				dt_value = EvalMultitypeValue::DateTime(date);
 			} else {
 				contentStr = contentStr.substr(1, contentLen - 2);
-- 
2.43.0


From b69ed2db4ec9ca03552705061f4d931e9cad9383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 20/42] fix: an error on the left of && hides a false on the
 right

---
 Query/TempResult.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 28be3c5..3776525 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -758,10 +758,9 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue lRes, rRes;
 		lRes = doComp(root.children[0], row, id_cols, kvstore, this_varset);
 		if (lRes.datatype == EvalMultitypeValue::xsd_boolean) {
-			if ((root.oprt == "||" && lRes.bool_value.getValue() == 1) || (root.oprt == "&&" && lRes.bool_value.getValue() != 1))
+			if ((root.oprt == "||" && lRes.bool_value.getValue() == 1) || (root.oprt == "&&" && lRes.bool_value.getValue() == 0))
 				return lRes;
-		} else if (root.oprt == "&&")
-			return lRes;
+		}
 		rRes = doComp(root.children[1], row, id_cols, kvstore, this_varset);
 
 		if (root.oprt == "||")
-- 
2.43.0


From 72fb4e1ac532f07022432b6994d2728cb6524bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:38 +0000
Subject: [PATCH 21/42] fix: IN and NOT IN compare with the first value of the
 list only

---
 Query/TempResult.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 3776525..c788f06 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1179,7 +1179,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		for (int i = 1; i < (int)root.children.size(); i++)
 		{
 			EvalMultitypeValue y;
-			y = doComp(root.children[1], row, id_cols, kvstore, this_varset);
+			y = doComp(root.children[i], row, id_cols, kvstore, this_varset);
 			EvalMultitypeValue equal = (x == y);
 			if (i == 1)
 				ret_femv = equal;
@@ -1201,7 +1201,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		for (int i = 1; i < (int)root.children.size(); i++)
 		{
 			EvalMultitypeValue y;
-			y = doComp(root.children[1], row, id_cols, kvstore, this_varset);
+			y = doComp(root.children[i], row, id_cols, kvstore, this_varset);
 			EvalMultitypeValue inequal = (x != y);
 			if (i == 1)
 				ret_femv = inequal;
-- 
2.43.0


From e236b33400b31edbe76f99fc0e10071294a44fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:08 +0000
Subject: [PATCH 22/42] fix: a decimal compared or calculated with a float is
 not promoted

---
 Util/EvalMultitypeValue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 45b4772..f32600e 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -196,6 +196,8 @@ void EvalMultitypeValue::convert2Type(EvalMultitypeValue::DataType to_type)
 		this->long_value = this->int_value;
 	else if (this->datatype == xsd_integer && to_type == xsd_double)
 		this->dbl_value = this->int_value;
+	else if (this->datatype == xsd_decimal && to_type == xsd_float)
+		;	// both are kept in flt_value
 	else if (this->datatype == xsd_decimal && to_type == xsd_double)
 		this->dbl_value = this->flt_value;
 	else if (this->datatype == xsd_decimal && to_type == xsd_long)
-- 
2.43.0


From 1fc2f754def1a58897f61df4465b671c0a73433b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:06 +0000
Subject: [PATCH 23/42] fix: a numeric literal that is malformed or out of
 range ends the process in a FILTER

---
 Util/EvalMultitypeValue.cpp | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index f32600e..5598020 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -1131,21 +1131,26 @@ void EvalMultitypeValue::deduceTypeValue()
 				dt_value = EvalMultitypeValue::DateTime(date);
 			} else {
 				contentStr = contentStr.substr(1, contentLen - 2);
-				if (sufStr == "integer") {
-					datatype = EvalMultitypeValue::xsd_integer;
-					int_value = stoi(contentStr);
-				} else if (sufStr == "long") {
-					datatype = EvalMultitypeValue::xsd_long;
-					long_value = stoll(contentStr);
-				} else if (sufStr == "decimal") {
-					datatype = EvalMultitypeValue::xsd_decimal;
-					flt_value = stof(contentStr);
-				} else if (sufStr == "float") {
-					datatype = EvalMultitypeValue::xsd_float;
-					flt_value = stof(contentStr);
-				} else if (sufStr == "double") {
-					datatype = EvalMultitypeValue::xsd_double;
-					dbl_value = stod(contentStr);
+				try {
+					if (sufStr == "integer") {
+						datatype = EvalMultitypeValue::xsd_integer;
+						int_value = stoi(contentStr);
+					} else if (sufStr == "long") {
+						datatype = EvalMultitypeValue::xsd_long;
+						long_value = stoll(contentStr);
+					} else if (sufStr == "decimal") {
+						datatype = EvalMultitypeValue::xsd_decimal;
+						flt_value = stof(contentStr);
+					} else if (sufStr == "float") {
+						datatype = EvalMultitypeValue::xsd_float;
+						flt_value = stof(contentStr);
+					} else if (sufStr == "double") {
+						datatype = EvalMultitypeValue::xsd_double;
+						dbl_value = stod(contentStr);
+					}
+				} catch (const std::logic_error &) {
+					// not a number of this type: the literal is only a term
+					datatype = EvalMultitypeValue::rdf_term;
 				}
 			}
 		}
-- 
2.43.0


From e8c24495f18635b662bcc712ad0613a7121ef10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:59 +0000
Subject: [PATCH 24/42] fix: the difference of two dates depends on an
 uninitialised tm_isdst

---
 Util/EvalMultitypeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 5598020..bc4e55b 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -840,7 +840,7 @@ EvalMultitypeValue
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
 	if (datatype == xsd_datetime && x.datatype == xsd_datetime) {
-		std::tm t1, t2;
+		std::tm t1 = std::tm(), t2 = std::tm();	// tm_isdst included
 		t1.tm_year = dt_value.date[0] - 1900;
 		t1.tm_mon = dt_value.date[1] - 1;
 		t1.tm_mday = dt_value.date[2];
-- 
2.43.0


From 8312f7904bc3e07696ec79f791abf8ad25458a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:44 +0000
Subject: [PATCH 25/42] fix: a refused request for an identifier used up one
 (in the end the limit wrapped and identifiers in use were handed out), and
 the last one was never given

---
 Database/Database.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 92064fc..effb1cb 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -356,7 +356,6 @@ Database::allocEntityID()
 
 	if (this->freelist_entity == NULL)
 	{
-		t = this->limitID_entity++;
 		if (this->limitID_entity >= Util::LITERAL_FIRST_ID)
 		{
 			cout << "fail to alloc id for entity" << endl;
@@ -364,6 +363,7 @@ Database::allocEntityID()
 			allocEntityID_lock.unlock();
 			return INVALID;
 		}
+		t = this->limitID_entity++;
 	}
 	else
 	{
@@ -403,7 +403,6 @@ Database::allocLiteralID()
 
 	if (this->freelist_literal == NULL)
 	{
-		t = this->limitID_literal++;
 		if (this->limitID_literal >= Util::LITERAL_FIRST_ID)
 		{
 			cout << "fail to alloc id for literal" << endl;
@@ -411,6 +410,7 @@ Database::allocLiteralID()
 			allocLiteralID_lock.unlock();
 			return INVALID;
 		}
+		t = this->limitID_literal++;
 	}
 	else
 	{
@@ -453,7 +453,6 @@ Database::allocPredicateID()
 
 	if (this->freelist_predicate == NULL)
 	{
-		t = this->limitID_predicate++;
 		if (this->limitID_predicate >= static_cast<int>(Util::LITERAL_FIRST_ID))
 		{
 			cout << "fail to alloc id for predicate" << endl;
@@ -461,6 +460,7 @@ Database::allocPredicateID()
 			allocPredicateID_lock.unlock();
 			return -1;
 		}
+		t = this->limitID_predicate++;
 	}
 	else
 	{
-- 
2.43.0


From 778de77c34b1b95d21a7c8f5c57900dc488e3455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:44 +0000
Subject: [PATCH 26/42] fix: removing the last triple of an entity with itself
 released the entity's identifier twice, so that two new entities got it

---
 Database/Database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index effb1cb..ce80370 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3442,7 +3442,7 @@ bool Database::removeTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		if (is_obj_entity)
 		{
 			obj_degree = this->kvstore->getEntityDegree(_obj_id);
-			if (obj_degree == 0)
+			if (obj_degree == 0 && _obj_id != _sub_id) // subject already released above
 			{
 				this->kvstore->subEntityByID(_obj_id);
 				this->kvstore->subIDByEntity(_triple.object);
-- 
2.43.0


From e89dcf0102ce11feead9d3fb1a8b212eff2441da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:44 +0000
Subject: [PATCH 27/42] fix: batch_remove removed arbitrary triples
 (uninitialised identifiers) in place of those with an unknown subject,
 predicate or object

---
 Database/Database.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index ce80370..d687a45 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4080,14 +4080,20 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 			continue;
 		}
 
-		id_tuples[i].subid = _sub_id;
-		id_tuples[i].preid = _pre_id;
-		id_tuples[i].objid = _obj_id;
+		id_tuples[valid_num].subid = _sub_id;
+		id_tuples[valid_num].preid = _pre_id;
+		id_tuples[valid_num].objid = _obj_id;
+		++valid_num;
 		sub_ids.insert(_sub_id);
 		pre_ids.insert(_pre_id);
 		obj_ids.insert(_obj_id);
 	}
 
+	// only the triples whose components are all known were put there
+	if (valid_num == 0)
+		return 0;
+	id_tuples.resize(valid_num);
+
 	sort(id_tuples.begin(), id_tuples.end(), Util::spo_cmp_idtuple);
 	auto new_end = unique(id_tuples.begin(), id_tuples.end(), Util::equal);
 	id_tuples.erase(new_end, id_tuples.end());
-- 
2.43.0


From 692d44c0a114c5abcca60606fbf4f1ea5221f596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:48 +0000
Subject: [PATCH 28/42] fix: releasing a value of more than two blocks gave
 only its first two back (run length was taken from the first block, and
 restarted at 0)

---
 KVstore/ISArray/ISBlockManager.cpp | 4 ++--
 KVstore/IVArray/IVBlockManager.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/KVstore/ISArray/ISBlockManager.cpp b/KVstore/ISArray/ISBlockManager.cpp
index 18d35f6..64f71cc 100644
--- a/KVstore/ISArray/ISBlockManager.cpp
+++ b/KVstore/ISArray/ISBlockManager.cpp
@@ -318,7 +318,7 @@ ISBlockManager::FreeBlocks(const unsigned index)
 
 		pread(fd, &next_index, 1 * sizeof(unsigned), offset);
 
-		if (next_index - index == 1) // continuous
+		if (next_index - _index == 1) // continuous
 		{
 			curlen++;
 		}
@@ -356,7 +356,7 @@ ISBlockManager::FreeBlocks(const unsigned index)
 			index_len_map.insert(make_pair(cur_index, curlen));
 			len_index_map.insert(make_pair(curlen, cur_index));
 			
-			curlen = 0;
+			curlen = 1;
 			cur_index = next_index;
 		}
 		_index = next_index;
diff --git a/KVstore/IVArray/IVBlockManager.cpp b/KVstore/IVArray/IVBlockManager.cpp
index f0cdfd7..01bc476 100644
--- a/KVstore/IVArray/IVBlockManager.cpp
+++ b/KVstore/IVArray/IVBlockManager.cpp
@@ -324,7 +324,7 @@ IVBlockManager::FreeBlocks(const unsigned index)
 
 		pread(fd, &next_index, 1 * sizeof(unsigned), offset);
 
-		if (next_index - index == 1) // continuous
+		if (next_index - _index == 1) // continuous
 		{
 			curlen++;
 		}
@@ -363,7 +363,7 @@ IVBlockManager::FreeBlocks(const unsigned index)
 			index_len_map.insert(make_pair(cur_index, curlen));
 			len_index_map.insert(make_pair(curlen, cur_index));
 			
-			curlen = 0;
+			curlen = 1;
 			cur_index = next_index;
 		}
 		_index = next_index;
-- 
2.43.0


From 3e1dc48be121c08da6d67fe39f22d4d659c40bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:48 +0000
Subject: [PATCH 29/42] fix: storing an empty value lost a run of free blocks
 and dereferenced a null pointer

---
 KVstore/ISArray/ISBlockManager.cpp | 2 ++
 KVstore/IVArray/IVBlockManager.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/KVstore/ISArray/ISBlockManager.cpp b/KVstore/ISArray/ISBlockManager.cpp
index 64f71cc..73e1dea 100644
--- a/KVstore/ISArray/ISBlockManager.cpp
+++ b/KVstore/ISArray/ISBlockManager.cpp
@@ -201,6 +201,8 @@ ISBlockManager::getWhereToWrite(unsigned _len)
 	// try to find suitable free blocks in current free block lists
 	// AllocNum is number of blocks which can fit in _len bits
 	unsigned AllocNum = (unsigned) ((_len + BLOCK_DATA_SIZE - 1) / BLOCK_DATA_SIZE);
+	if (AllocNum == 0) // an empty value has a block too: it is found by its number
+		AllocNum = 1;
 
 	// map <unsigned, unsigned>::iterator it = len_index_map.upper_bound(AllocNum - 1);
 	set <pair<unsigned, unsigned> >::iterator it = len_index_map.lower_bound(make_pair(AllocNum, (unsigned)0));
diff --git a/KVstore/IVArray/IVBlockManager.cpp b/KVstore/IVArray/IVBlockManager.cpp
index 01bc476..e0ed9bb 100644
--- a/KVstore/IVArray/IVBlockManager.cpp
+++ b/KVstore/IVArray/IVBlockManager.cpp
@@ -202,6 +202,8 @@ IVBlockManager::getWhereToWrite(unsigned long _len)
 	// try to find suitable free blocks in current free block lists
 	// AllocNum is number of blocks which can fit in _len bits
 	unsigned int AllocNum = (unsigned int) ((_len + BLOCK_DATA_SIZE - 1) / BLOCK_DATA_SIZE);
+	if (AllocNum == 0) // an empty value has a block too: it is found by its number
+		AllocNum = 1;
 
 	// map <unsigned, unsigned>::iterator it = len_index_map.upper_bound(AllocNum - 1);
 	indexlock.lock();
-- 
2.43.0


From 7dc678632572ca024dfc50cb5528cfd4576d4397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:28 +0000
Subject: [PATCH 30/42] fix: a cross product of solution tables moved the
 strings out of rows it used again

---
 Query/TempResult.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index c788f06..98da1be 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -350,11 +350,11 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 
 						for (int k = 0; k < this_str_cols; k++)
 							// copy(this->result[i].str[k].begin(), this->result[i].str[k].end(), v[this2r_str_pos[k]].begin());
-							v[this2r_str_pos[k]] = std::move(this->result[i].str[k]);
+							v[this2r_str_pos[k]] = this->result[i].str[k];	// not moved: the row is used again
 							// v[this2r_str_pos[k]] = this->result[i].str[k];	// move
 						for (int k = 0; k < x_str_cols; k++)
 							// copy(x.result[j].str[k].begin(), x.result[j].str[k].end(), v[x2r_str_pos[k]].begin());
-							v[x2r_str_pos[k]] = std::move(x.result[j].str[k]);
+							v[x2r_str_pos[k]] = x.result[j].str[k];
 							// v[x2r_str_pos[k]] = x.result[j].str[k];	// move
 
 						curr++;
@@ -370,11 +370,11 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 
 						for (int k = 0; k < this_str_cols; k++)
 							// copy(this->result[i].str[k].begin(), this->result[i].str[k].end(), v[this2r_str_pos[k]].begin());
-							v[this2r_str_pos[k]] = std::move(this->result[i].str[k]);
+							v[this2r_str_pos[k]] = this->result[i].str[k];	// not moved: the row is used again
 							// v[this2r_str_pos[k]] = this->result[i].str[k];	// move
 						for (int k = 0; k < x_str_cols; k++)
 							// copy(x.result[j].str[k].begin(), x.result[j].str[k].end(), v[x2r_str_pos[k]].begin());
-							v[x2r_str_pos[k]] = std::move(x.result[j].str[k]);
+							v[x2r_str_pos[k]] = x.result[j].str[k];
 							// v[x2r_str_pos[k]] = x.result[j].str[k];	// move
 
 						curr++;
-- 
2.43.0


From dc35679f6626e78da7e9d090286c9a2d7eb5177f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:28 +0000
Subject: [PATCH 31/42] fix: OPTIONAL with an empty table that shares no
 variable dropped the left solutions

---
 Query/TempResult.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 98da1be..94d1109 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -539,8 +539,9 @@ void TempResult::doOptional(vector<bool> &binding, TempResult &x, TempResult &rn
 		this->doJoin(x, ra);
 
 		binding.resize((int)this->result.size());
-		for (int i = 0; i < (int)this->result.size(); i++)
-			binding[i] = true;	// val in resize is only for new insertions
+		if (!x.result.empty())
+			for (int i = 0; i < (int)this->result.size(); i++)
+				binding[i] = true;	// val in resize is only for new insertions
 	}
 	else if (!x.result.empty())
 	{
-- 
2.43.0


From 372eae53d0d5318d8617abd54428b52d9fa296eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:28 +0000
Subject: [PATCH 32/42] fix: MINUS with an empty table duplicated or overwrote
 solutions

---
 Query/TempResult.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 94d1109..cd31a52 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -619,9 +619,6 @@ void TempResult::doOptional(vector<bool> &binding, TempResult &x, TempResult &rn
 
 void TempResult::doMinus(TempResult &x, TempResult &r)
 {
-	if (x.result.empty())
-		r = *this;
-	
 	int this_id_cols = this->id_varset.getVarsetSize();
 
 	int r_id_cols = r.id_varset.getVarsetSize();
@@ -634,7 +631,7 @@ void TempResult::doMinus(TempResult &x, TempResult &r)
 
 	Varset common = this->getAllVarset() * x.getAllVarset();
 
-	if (common.empty())
+	if (common.empty() || x.result.empty())
 	{
 		for (int i = 0; i < (int)this->result.size(); i++)
 		{
-- 
2.43.0


From 4c83655955337d5f46eef06e64d9533baf1156da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:28 +0000
Subject: [PATCH 33/42] fix: joins of tables that hold a variable partly as
 identifiers and partly as strings

---
 Query/TempResult.cpp | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index cd31a52..fcf2db0 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1330,12 +1330,15 @@ void TempResultSet::doJoin(TempResultSet &x, TempResultSet &r, StringIndex *stri
 	for (int i = 0; i < (int)x.results.size(); i++)
 		x_str_varset += x.results[i].str_varset;
 
+	// A variable held as a string by any table, on either side, is held as a string by all
+	Varset str_varset = this_str_varset + x_str_varset;
+
 	for (int i = 0; i < (int)this->results.size(); i++)
-		if (this->results[i].id_varset.hasCommonVar(x_str_varset))
-			this->results[i].convertId2Str(this->results[i].id_varset * x_str_varset, stringindex, entity_literal_varset);
+		if (this->results[i].id_varset.hasCommonVar(str_varset))
+			this->results[i].convertId2Str(this->results[i].id_varset * str_varset, stringindex, entity_literal_varset);
 	for (int i = 0; i < (int)x.results.size(); i++)
-		if (x.results[i].id_varset.hasCommonVar(this_str_varset))
-			x.results[i].convertId2Str(x.results[i].id_varset * this_str_varset, stringindex, entity_literal_varset);
+		if (x.results[i].id_varset.hasCommonVar(str_varset))
+			x.results[i].convertId2Str(x.results[i].id_varset * str_varset, stringindex, entity_literal_varset);
 
 	// long totalFindCompTime = 0, totalInnerJoinTime = 0;
 	for (int i = 0; i < (int)this->results.size(); i++)
@@ -1402,13 +1405,15 @@ void TempResultSet::doOptional(TempResultSet &x, TempResultSet &r, StringIndex *
 	for (int i = 0; i < (int)x.results.size(); i++)
 		x_str_varset += x.results[i].str_varset;
 
+	// A variable held as a string by any table, on either side, is held as a string by all
+	Varset str_varset = this_str_varset + x_str_varset;
 	// Align this and x's str varset
 	for (int i = 0; i < (int)this->results.size(); i++)
-		if (this->results[i].id_varset.hasCommonVar(x_str_varset))
-			this->results[i].convertId2Str(this->results[i].id_varset * x_str_varset, stringindex, entity_literal_varset);
+		if (this->results[i].id_varset.hasCommonVar(str_varset))
+			this->results[i].convertId2Str(this->results[i].id_varset * str_varset, stringindex, entity_literal_varset);
 	for (int i = 0; i < (int)x.results.size(); i++)
-		if (x.results[i].id_varset.hasCommonVar(this_str_varset))
-			x.results[i].convertId2Str(x.results[i].id_varset * this_str_varset, stringindex, entity_literal_varset);
+		if (x.results[i].id_varset.hasCommonVar(str_varset))
+			x.results[i].convertId2Str(x.results[i].id_varset * str_varset, stringindex, entity_literal_varset);
 
 	for (int i = 0; i < (int)this->results.size(); i++)
 	{
@@ -1451,12 +1456,15 @@ void TempResultSet::doMinus(TempResultSet &x, TempResultSet &r, StringIndex *str
 	for (int i = 0; i < (int)x.results.size(); i++)
 		x_str_varset += x.results[i].str_varset;
 
+	// A variable held as a string by any table, on either side, is held as a string by all
+	Varset str_varset = this_str_varset + x_str_varset;
+
 	for (int i = 0; i < (int)this->results.size(); i++)
-		if (this->results[i].id_varset.hasCommonVar(x_str_varset))
-			this->results[i].convertId2Str(this->results[i].id_varset * x_str_varset, stringindex, entity_literal_varset);
+		if (this->results[i].id_varset.hasCommonVar(str_varset))
+			this->results[i].convertId2Str(this->results[i].id_varset * str_varset, stringindex, entity_literal_varset);
 	for (int i = 0; i < (int)x.results.size(); i++)
-		if (x.results[i].id_varset.hasCommonVar(this_str_varset))
-			x.results[i].convertId2Str(x.results[i].id_varset * this_str_varset, stringindex, entity_literal_varset);
+		if (x.results[i].id_varset.hasCommonVar(str_varset))
+			x.results[i].convertId2Str(x.results[i].id_varset * str_varset, stringindex, entity_literal_varset);
 
 	for (int i = 0; i < (int)this->results.size(); i++)
 	{
-- 
2.43.0


From a41ad73233f88d3f0023953081bae426bd47aff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:28 +0000
Subject: [PATCH 34/42] fix: projection dropped the solutions that bind none of
 the chosen variables

---
 Query/TempResult.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index fcf2db0..eeee8d6 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1562,7 +1562,6 @@ void TempResultSet::doProjection1(Varset &proj, TempResultSet &r, StringIndex *s
 	int r_str_cols = r_str_varset.getVarsetSize();
 
 	for (int i = 0; i < (int)this->results.size(); i++)
-		if (this->results[i].id_varset.hasCommonVar(r_id_varset) || this->results[i].str_varset.hasCommonVar(r_str_varset))
 		{
 			vector<int> r2this_id_pos = r_id_varset.mapTo(this->results[i].id_varset);
 			vector<int> r2this_str_pos = r_str_varset.mapTo(this->results[i].str_varset);
-- 
2.43.0


From 1f53589e4794fb7103bf07310ae283fe402f1cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:59 +0000
Subject: [PATCH 35/42] fix: a cross product of solution tables overwrote rows
 already in the result

---
 Query/TempResult.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index eeee8d6..f0357ab 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -295,12 +295,13 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 	if (common.empty())
 	{
 		// printf("Res size = %d, ", (int)this->result.size() * (int)x.result.size());
-		r.result.resize(this->result.size() * x.result.size());
+		size_t first = r.result.size();	// r may hold the rows of other tables
+		r.result.resize(first + this->result.size() * x.result.size());
 		// r.result.assign(this->result.size() * x.result.size(), TempResult::ResultPair(r_str_cols));
 		bool x_larger = x.result.size() > this->result.size();
 		if (r_id_cols > 0)
 		{
-			size_t curr = 0;
+			size_t curr = first;
 
 			if (x_larger)
 			{
@@ -339,7 +340,7 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 		}
 		if (r_str_cols > 0)
 		{
-			size_t curr = 0;
+			size_t curr = first;
 			if (x_larger)
 			{
 				for (int i = 0; i < (int)this->result.size(); i++)
-- 
2.43.0


From 9c02aabc07560ffa001a450e556b403c73797977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:59 +0000
Subject: [PATCH 36/42] fix: OPTIONAL on the empty pattern lost the solution
 that binds nothing

---
 Query/TempResult.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index f0357ab..920da52 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1396,6 +1396,17 @@ void TempResultSet::doOptional(TempResultSet &x, TempResultSet &r, StringIndex *
 	{
 		this->initial = false;
 		this->doUnion(x, r);
+		// Nothing to add to the empty pattern: its one solution, which binds nothing, stays
+		bool no_solution = true;
+		for (int i = 0; i < (int)r.results.size(); i++)
+			if (!r.results[i].result.empty())
+				no_solution = false;
+		if (no_solution)
+		{
+			Varset no_var;
+			int pos = r.findCompatibleResult(no_var, no_var);
+			r.results[pos].result.push_back(TempResult::ResultPair());
+		}
 		return;
 	}
 
-- 
2.43.0


From d3ac222545da5f6780dbb6768520a440ba7e047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:50 +0000
Subject: [PATCH 37/42] fix: removing or modifying a key beyond the key table
 read outside it

---
 KVstore/IVArray/IVArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index 3440deb..b8ae61b 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -402,7 +402,7 @@ IVArray::insert(unsigned _key, char *_str, unsigned long _len)
 bool
 IVArray::remove(unsigned _key)
 {
-	if (!array[_key].isUsed())
+	if (_key >= CurEntryNum || !array[_key].isUsed())
 	{
 		return false;
 	}
@@ -441,7 +441,7 @@ bool
 IVArray::modify(unsigned _key, char *_str, unsigned long _len)
 {
 	//cout << "this IVArray::modify " << endl;
-	if (!array[_key].isUsed())
+	if (_key >= CurEntryNum || !array[_key].isUsed())
 	{
 		
 		return false;
-- 
2.43.0


From 78cb8f079f91ead73414b2c1683b333a95f48394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:50 +0000
Subject: [PATCH 38/42] fix: a modified value kept its released blocks and
 released them again, with other keys' values in them

---
 KVstore/ISArray/ISArray.cpp |  2 ++
 KVstore/IVArray/IVArray.cpp | 15 ++++++---------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/KVstore/ISArray/ISArray.cpp b/KVstore/ISArray/ISArray.cpp
index a58d1aa..c469b58 100644
--- a/KVstore/ISArray/ISArray.cpp
+++ b/KVstore/ISArray/ISArray.cpp
@@ -443,6 +443,8 @@ ISArray::modify(unsigned _key, char *_str, unsigned _len)
 
 	unsigned store = array[_key].getStore();
 	BM->FreeBlocks(store);
+	// the blocks now belong to nobody: they must not be released a second time
+	array[_key].setStore(0);
 	AddInCache(_key, _str, _len);
 
 	this->AccessLock.unlock();
diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index b8ae61b..d7da329 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -461,16 +461,13 @@ IVArray::modify(unsigned _key, char *_str, unsigned long _len)
 
 		array[_key].release();
 		CurCacheSize -= len;
-		AddInCache(_key, _str, _len);
-	}
-	else
-	{
-		//cout << "free disk and set" << endl;
-		unsigned store = array[_key].getStore();
-		BM->FreeBlocks(store);
-		AddInCache(_key, _str, _len);
-		
 	}
+
+	// the blocks now belong to nobody: they must not be released a second time
+	unsigned store = array[_key].getStore();
+	BM->FreeBlocks(store);
+	array[_key].setStore(0);
+	AddInCache(_key, _str, _len);
 	this->CacheLock.unlock();
 	return true;
 	
-- 
2.43.0


From c1465e4b7dd372032cd4ab9c2a290ae7a5c291e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:50 +0000
Subject: [PATCH 39/42] fix: a value larger than the cache was lost when it was
 inserted or modified

---
 KVstore/ISArray/ISArray.cpp | 24 +++++++++++++++++++++++-
 KVstore/IVArray/IVArray.cpp | 12 +++++++++++-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/KVstore/ISArray/ISArray.cpp b/KVstore/ISArray/ISArray.cpp
index c469b58..9f2306e 100644
--- a/KVstore/ISArray/ISArray.cpp
+++ b/KVstore/ISArray/ISArray.cpp
@@ -371,7 +371,21 @@ ISArray::insert(unsigned _key, char *_str, unsigned _len)
 		// cout << "Finish Alloc" << endl;
 	}
 
-	AddInCache(_key, _str, _len);
+	if (_len > MAX_CACHE_SIZE) // never fits in the cache, store it directly
+	{
+		unsigned store = BM->WriteValue(_str, _len);
+		if (store == 0)
+		{
+			this->AccessLock.unlock();
+			return false;
+		}
+		array[_key].setStore(store);
+		delete[] _str;
+	}
+	else
+	{
+		AddInCache(_key, _str, _len);
+	}
 	array[_key].setUsedFlag(true);
 	array[_key].setDirtyFlag(true);
 	this->AccessLock.unlock();
@@ -445,6 +459,14 @@ ISArray::modify(unsigned _key, char *_str, unsigned _len)
 	BM->FreeBlocks(store);
 	// the blocks now belong to nobody: they must not be released a second time
 	array[_key].setStore(0);
+	if (_len > MAX_CACHE_SIZE) // never fits in the cache, store it directly
+	{
+		store = BM->WriteValue(_str, _len);
+		array[_key].setStore(store);
+		delete[] _str;
+		this->AccessLock.unlock();
+		return store != 0;
+	}
 	AddInCache(_key, _str, _len);
 
 	this->AccessLock.unlock();
diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index d7da329..68c108e 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -378,11 +378,12 @@ IVArray::insert(unsigned _key, char *_str, unsigned long _len)
 	}
 
 	// TODO maybe sometimes not to write in disk, but stored in main memory
-	if (VList::isLongList(_len))
+	if (VList::isLongList(_len) || _len > MAX_CACHE_SIZE)
 	{
 		unsigned store = BM->WriteValue(_str, _len);
 		if (store == 0)
 		{
+			this->CacheLock.unlock();
 			return false;
 		}
 		array[_key].setStore(store);
@@ -467,6 +468,15 @@ IVArray::modify(unsigned _key, char *_str, unsigned long _len)
 	unsigned store = array[_key].getStore();
 	BM->FreeBlocks(store);
 	array[_key].setStore(0);
+	array[_key].setCacheFlag(false);
+	if (_len > MAX_CACHE_SIZE) // never fits in the cache, store it directly
+	{
+		store = BM->WriteValue(_str, _len);
+		array[_key].setStore(store);
+		delete[] _str;
+		this->CacheLock.unlock();
+		return store != 0;
+	}
 	AddInCache(_key, _str, _len);
 	this->CacheLock.unlock();
 	return true;
-- 
2.43.0


From f4619e17b25f59c716afcfa3f9e48fd12ec9113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:50 +0000
Subject: [PATCH 40/42] fix: the key table of an ISArray grew one entry too
 short for a multiple of 1024

---
 KVstore/ISArray/ISArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/KVstore/ISArray/ISArray.cpp b/KVstore/ISArray/ISArray.cpp
index 9f2306e..b520643 100644
--- a/KVstore/ISArray/ISArray.cpp
+++ b/KVstore/ISArray/ISArray.cpp
@@ -344,8 +344,8 @@ ISArray::insert(unsigned _key, char *_str, unsigned _len)
 	{
 		// Alloc = true;
 		CurEntryNumChange = true;
-		// temp is the smallest number >= _key and mod SET_KEY_INC = 0
-		unsigned temp = ((_key + (1 << 10) - 1) >> 10) << 10;
+		// temp is the smallest number > _key and mod SET_KEY_INC = 0
+		unsigned temp = ((_key >> 10) + 1) << 10;
 		unsigned OldEntryNum = CurEntryNum;
 		CurEntryNum = max(OldEntryNum << 1, temp);
 		CurEntryNum = ISMIN(CurEntryNum, static_cast<unsigned>(ISMAXKEYNUM));
-- 
2.43.0


From a7f8ad01533b3d409f4f0896597f555792958cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:50 +0000
Subject: [PATCH 41/42] fix: pinning a cached entry lost its value and upset
 the size of the cache

---
 KVstore/IVArray/IVArray.cpp | 22 +++++++++++++++-------
 KVstore/IVArray/IVEntry.cpp |  1 +
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index 68c108e..817fe52 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -419,13 +419,12 @@ IVArray::remove(unsigned _key)
 	if (array[_key].inCache())
 	{
 		RemoveFromLRUQueue(_key);
-		if(array[_key].isPined())
-			array[_key].setCachePinFlag(false);
 
 		char *str = NULL;
 		unsigned long len = 0;
 		array[_key].getBstr(str, len, false);
-		CurCacheSize -= len;
+		if (!array[_key].isPined())	// a pined entry is not counted
+			CurCacheSize -= len;
 		array[_key].setCacheFlag(false);
 	}
 
@@ -452,16 +451,15 @@ IVArray::modify(unsigned _key, char *_str, unsigned long _len)
 	if (array[_key].inCache())
 	{
 		RemoveFromLRUQueue(_key);
-		
-		if(array[_key].isPined())
-			array[_key].setCachePinFlag(false);
 
 		char* str = NULL;
 		unsigned long len = 0;
 		array[_key].getBstr(str, len, false);
 
 		array[_key].release();
-		CurCacheSize -= len;
+		if (!array[_key].isPined())	// a pined entry is not counted
+			CurCacheSize -= len;
+		array[_key].setCachePinFlag(false);
 	}
 
 	// the blocks now belong to nobody: they must not be released a second time
@@ -495,7 +493,17 @@ IVArray::PinCache(unsigned _key)
 	// try to read in main memory
 	if (array[_key].inCache())
 	{
+		if (array[_key].isPined())
+			return;
+
+		// the entry leaves the queue and the count, but not the main memory
 		RemoveFromLRUQueue(_key);
+		array[_key].setCacheFlag(true);
+
+		char *str = NULL;
+		unsigned long len = 0;
+		array[_key].getBstr(str, len, false);
+		CurCacheSize -= len;
 
 		array[_key].setCachePinFlag(true);
 	
diff --git a/KVstore/IVArray/IVEntry.cpp b/KVstore/IVArray/IVEntry.cpp
index 6a4ae76..ad5d606 100644
--- a/KVstore/IVArray/IVEntry.cpp
+++ b/KVstore/IVArray/IVEntry.cpp
@@ -149,6 +149,7 @@ IVEntry::Copy(const IVEntry& _entry)
 {
 	this->store = _entry.store;
 	this->cacheFlag = _entry.cacheFlag;
+	this->CachePinFlag = _entry.CachePinFlag;
 	this->dirtyFlag = _entry.dirtyFlag;
 	this->usedFlag = _entry.usedFlag;
 	if (_entry.value != NULL)
-- 
2.43.0


From 2ba3a9b7eec0aa55e3514ab85a2dc6c527f55df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:58 +0000
Subject: [PATCH 42/42] fix: asking for the transaction of an unknown
 identifier put a null one in the table

---
 Database/Txn_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Database/Txn_manager.h b/Database/Txn_manager.h
index 4c18fb0..c501913 100644
--- a/Database/Txn_manager.h
+++ b/Database/Txn_manager.h
@@ -71,7 +71,7 @@ public:
 	//GC
 	void Checkpoint();
 	
-	shared_ptr<Transaction> Get_Transaction(txn_id_t TID) { return txn_table[TID]; };
+	shared_ptr<Transaction> Get_Transaction(txn_id_t TID) { return get_transaction(TID); };
 	txn_id_t find_latest_txn();
 	
 	inline Database* GetDatabase() { return this->db; }
-- 
2.43.0

