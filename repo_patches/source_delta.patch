From 10d502033fbec688eec47cb5853107e1d075bfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 001/100] fix: ThreadPool constructor joins the workers already
 started when a later one cannot be

---
 include/nuSQuIDS/ThreadPool.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/ThreadPool.h b/include/nuSQuIDS/ThreadPool.h
index 91e6477..5d2df40 100644
--- a/include/nuSQuIDS/ThreadPool.h
+++ b/include/nuSQuIDS/ThreadPool.h
@@ -53,12 +53,16 @@ private:
     std::mutex queue_mutex;
     std::condition_variable condition;
     bool stop;
+
+    // tell the workers to finish the queued tasks, and wait for them to exit
+    void shutdown();
 };
  
 // the constructor just launches some amount of workers
 inline ThreadPool::ThreadPool(size_t threads)
     :   stop(false)
 {
+    try{
     for(size_t i = 0;i<threads;++i)
         workers.emplace_back(
             [this]
@@ -81,6 +85,12 @@ inline ThreadPool::ThreadPool(size_t threads)
                 }
             }
         );
+    }catch(...){
+        // a worker could not be started; the ones which were must be joined
+        // before they are destroyed
+        shutdown();
+        throw;
+    }
 }
 
 // add new work item to the pool
@@ -108,8 +118,7 @@ auto ThreadPool::enqueue(F&& f, Args&&... args)
     return res;
 }
 
-// the destructor joins all threads
-inline ThreadPool::~ThreadPool()
+inline void ThreadPool::shutdown()
 {
     {
         std::unique_lock<std::mutex> lock(queue_mutex);
@@ -120,4 +129,10 @@ inline ThreadPool::~ThreadPool()
         worker.join();
 }
 
+// the destructor joins all threads
+inline ThreadPool::~ThreadPool()
+{
+    shutdown();
+}
+
 #endif
-- 
2.43.0


From 1e68d5839c77df16ca4e3b5d48f50b7e82089b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 002/100] fix: const marray::back returns the last element

---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 65a5f86..99d8885 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1287,7 +1287,7 @@ public:
 	reference front(){ return(data[0]); }
 	const_reference front() const { return(data[0]); }
 	reference back(){ return(data[size()-1]); }
-	const_reference back() const { return(size()-1); }
+	const_reference back() const { return(data[size()-1]); }
 	
 	///Get the allocator currently used by the array
 	allocator_type get_allocator() const{ return(allocator()); }
-- 
2.43.0


From 50575aed06a7a13c8349f6009587f571304e5bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 003/100] fix: division involving a non-const marray as divisor
 computed divisor/dividend

---
 include/nuSQuIDS/marray.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 99d8885..be0b0cb 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1587,9 +1587,12 @@ typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
 marray<T,Rank> operator/(marray<T,Rank>& a, const U& f){
 	return(marray<T,Rank>(a)/=f);
 }
-template<typename T, unsigned Rank, typename U>
+template<typename T, unsigned Rank, typename U,
+typename=typename std::enable_if<!detail::is_marray<U>::value>::type>
 marray<T,Rank> operator/(const U& f, marray<T,Rank>& a){
-	return(marray<T,Rank>(a)/=f);
+	marray<T,Rank> result(a);
+	for(auto& i : result) i=f/i;
+	return(result);
 }
 
 namespace detail{
-- 
2.43.0


From 326ed65bf33df5f2d8f89e80b9c60cecc25cf660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 004/100] fix: marray releases the new buffer of a failed
 assignment with the allocator and size it was obtained with

---
 include/nuSQuIDS/marray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index be0b0cb..6e4f28f 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -486,7 +486,7 @@ private:
 		try{
 			copy_init_buffer(new_data,other.total_size(),new_allocator,other.data); //may throw
 		}catch(...){
-			allocator_traits::deallocate(allocator(),new_data,total_size());
+			allocator_traits::deallocate(new_allocator,new_data,other.total_size());
 			throw;
 		}
 		//----
@@ -499,7 +499,7 @@ private:
 		try{
 			copy_init_buffer(new_data,other.total_size(),allocator(),other.data); //may throw
 		}catch(...){
-			allocator_traits::deallocate(allocator(),new_data,total_size());
+			allocator_traits::deallocate(allocator(),new_data,other.total_size());
 			throw;
 		}
 		//----
@@ -526,7 +526,7 @@ private:
 			try{
 				copy_init_buffer(new_data,other.total_size(),allocator(),other.data); //may throw
 			}catch(...){
-				allocator_traits::deallocate(allocator(),new_data,total_size());
+				allocator_traits::deallocate(allocator(),new_data,other.total_size());
 				throw;
 			}
 			//----
-- 
2.43.0


From ec9a2f1b28b0dc17ba763c1d9046e811b727155e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 005/100] fix: marray move assignment leaves the exchanged
 buffer with the allocator which owns it

---
 include/nuSQuIDS/marray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 6e4f28f..9488981 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -512,7 +512,7 @@ private:
 		swap(extents,other.extents);
 		swap(data,other.data);
 		swap(total_size(),other.total_size());
-		allocator()=std::move(other.allocator());
+		swap(allocator(),other.allocator());
 	}
 	void move_assign(marray&& other, std::false_type dont_replace_allocator){
 		using std::swap;
-- 
2.43.0


From b11105f2166aea22b86838323cf2dcd549e278c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 006/100] fix: marray constructors from an initializer or range
 of the wrong size leaked their buffer; elements are constructed rather than
 assigned

---
 include/nuSQuIDS/marray.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 9488981..dab8590 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -729,11 +729,10 @@ public:
 	data(total_size()?allocator_traits::allocate(allocator(),total_size()):nullptr){
 		std::copy(dims.begin(),dims.end(),extents.begin());
 		
-		//ensure that the initializer has the correct shape
-		detail::initializer_shape_checker<value_type,Rank,Rank>::check(extents,init,0);
-		
 		pointer write_pos=data;
 		try{
+			//ensure that the initializer has the correct shape
+			detail::initializer_shape_checker<value_type,Rank,Rank>::check(extents,init,0);
 			detail::multidimensional_initializer<value_type,Rank,allocator_type,Rank>::initialize(init,allocator(),write_pos);
 		}catch(...){
 			for(pointer p=data; p!=write_pos; p++)
@@ -759,13 +758,12 @@ public:
 	data(total_size()?allocator_traits::allocate(allocator(),total_size()):nullptr){
 		std::copy(dims.begin(),dims.end(),extents.begin());
 		
-		if(std::distance(init_begin,init_end)!=total_size())
-			throw std::logic_error("Iterator range has wrong size to initialize marray");
-		
 		pointer write_pos=data;
 		try{
+			if(std::distance(init_begin,init_end)!=total_size())
+				throw std::logic_error("Iterator range has wrong size to initialize marray");
 			for(; init_begin!=init_end; init_begin++, write_pos++)
-				*write_pos = *init_begin;
+				allocator_traits::construct(allocator(),write_pos,*init_begin);
 		}catch(...){
 			for(pointer p=data; p!=write_pos; p++)
 				allocator_traits::destroy(allocator(),p);
-- 
2.43.0


From ec5bb2106652663d2f00a0091a2ee416378c1eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 007/100] fix: marray sizes and strides are computed without
 truncation to int

---
 include/nuSQuIDS/marray.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index dab8590..de1c7a6 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -846,7 +846,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -862,7 +862,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -880,7 +880,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -898,7 +898,7 @@ public:
 		size_t offset=0;
 		//Since Rank>0 this is always a valid iterator, although it may be extents.end()
 		auto extentIt=extents.begin()+1, extentEnd=extents.end();
-		size_t stride=std::accumulate(extentIt,extentEnd,1,std::multiplies<size_type>());
+		size_t stride=std::accumulate(extentIt,extentEnd,size_type(1),std::multiplies<size_type>());
 		for(size_t index : indices){
 			offset+=index*stride;
 			if(extentIt!=extentEnd){ //avoid undefined behavior on last iteration
@@ -945,9 +945,9 @@ public:
 private:
 	void insert(size_type dim, size_type pos, size_t num, value_type val, std::true_type move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-pos;
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]+num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1002,9 +1002,9 @@ private:
 	
 	void insert(size_type dim, size_type pos, size_t num, value_type val, std::false_type dont_move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-pos;
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]+num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1056,9 +1056,9 @@ public:
 private:
 	void erase(size_type dim, size_type pos, size_t num, std::true_type move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1082,9 +1082,9 @@ private:
 	
 	void erase(size_type dim, size_type pos, size_t num, std::false_type dont_move){
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1125,9 +1125,9 @@ public:
 		assert(pos+num<=extents[dim]);
 		
 		const auto mult=std::multiplies<size_type>();
-		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,1u,mult);
+		const size_type iterations=std::accumulate(extents.begin(),extents.begin()+dim,size_type(1),mult);
 		const size_type remainder=extents[dim]-(pos+num);
-		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),1u,mult);
+		const size_type chunk_size=std::accumulate(extents.begin()+dim+1,extents.end(),size_type(1),mult);
 		
 		const size_type new_total_size=iterations*(extents[dim]-num)*chunk_size;
 		value_type* new_data=allocator_traits::allocate(allocator(),new_total_size); //may throw
@@ -1168,7 +1168,7 @@ public:
 	void reshape(const Container& new_extents){
 		if(std::distance(std::begin(new_extents),std::end(new_extents))!=Rank)
 			throw std::logic_error("Incorrect number of dimensions when attempting to reshape multidimensional array");
-		size_type new_total_size=std::accumulate(new_extents.begin(),new_extents.end(),1u,std::multiplies<size_type>());
+		size_type new_total_size=std::accumulate(new_extents.begin(),new_extents.end(),size_type(1),std::multiplies<size_type>());
 		if(new_total_size!=total_size())
 			throw std::logic_error("Inconsistent total size when attempting to reshape multidimensional array");
 		std::copy_n(std::begin(new_extents),Rank,extents.begin());
-- 
2.43.0


From 1025b208f86a6700dc5b202c2cd3f8ede4859328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 008/100] fix: marray atan2, pow and hypot of arrays of one
 type, and tgamma, can be used

---
 include/nuSQuIDS/marray.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index de1c7a6..962ad7f 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -1872,6 +1872,7 @@ using std::sqrt;
 using std::cbrt;
 using std::erf;
 using std::erfc;
+using std::tgamma;
 using std::lgamma;
 using std::ceil;
 using std::floor;
@@ -1912,7 +1913,7 @@ UNARY_MARRAY_FUNC(sqrt);
 UNARY_MARRAY_FUNC(cbrt);
 UNARY_MARRAY_FUNC(erf);
 UNARY_MARRAY_FUNC(erfc);
-UNARY_MARRAY_FUNC(tgmama);
+UNARY_MARRAY_FUNC(tgamma);
 UNARY_MARRAY_FUNC(lgamma);
 UNARY_MARRAY_FUNC(ceil);
 UNARY_MARRAY_FUNC(floor);
@@ -1938,9 +1939,9 @@ template<typename T, unsigned Rank> \
 marray<T,Rank> fname(const marray<T,Rank>& a1, const marray<T,Rank>& a2){ \
 	if(a1.get_extents()==a2.get_extents()){ \
 		marray<T,Rank> result(a1); \
-		for(auto ri=result.begin(),i1=a1.begin(),i2=a2.begin(),re=result.end; \
-			ri!=re; ri++,i1++,i2++) \
-			*ri=fname(*i1,*i2); \
+		auto i2=a2.begin(); \
+		for(auto ri=result.begin(),re=result.end(); ri!=re; ri++,i2++) \
+			*ri=fname(*ri,*i2); \
 		return(result); \
 	} \
 	return(applyOp(a1,a2,[](const T& t1, const T& t2){return(fname(t1,t2));})); \
-- 
2.43.0


From 6c4e6135a4681254e4d72f382a9ed962749f0771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:26 +0000
Subject: [PATCH 009/100] fix: aligned_allocator works for alignments of 256
 bytes and more

---
 include/nuSQuIDS/aligned_alloc.h | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/nuSQuIDS/aligned_alloc.h b/include/nuSQuIDS/aligned_alloc.h
index 5d27366..e81520e 100644
--- a/include/nuSQuIDS/aligned_alloc.h
+++ b/include/nuSQuIDS/aligned_alloc.h
@@ -25,6 +25,7 @@
 #ifndef NUSQUIDS_ALIGNED_ALLOC_H
 #define NUSQUIDS_ALIGNED_ALLOC_H
 
+#include <cstring>
 #include <limits>
 
 //An allocator which allocates blocks aligned to 2^n bytes for a user selected n.
@@ -79,7 +80,7 @@ public:
 	
 	///\returns The largest value N for which the call allocate(N,0) might succeed.
 	size_type max_size(){
-		return((std::numeric_limits<size_type>::max()-get_align())/sizeof(T));
+		return((std::numeric_limits<size_type>::max()-get_align()-sizeof(uint32_t))/sizeof(T));
 	}
 	
 	template <class U, class... Args>
@@ -111,34 +112,35 @@ public:
 		
 		size_type needed=n*sizeof(T);
 		size_type alignment=get_align();
-		needed+=alignment; //include space to do our thing
+		needed+=alignment+sizeof(uint32_t); //include space to do our thing
 		
 		//try to get memory
-		void* ptr=new char[needed];
+		char* base=new char[needed];
 		
 		//align!
-		uint8_t offset=alignment-reinterpret_cast<size_type>(ptr)%alignment;
 		//Note that since align is a power of 2, align-1 forms a mask with the low
 		//align_pow bits set. Its negation will then preserve only the higher bits
 		//of ptr, effectively flooring it to the nearest multiple of align. Adding
-		//align then preserves this alignment, and ensures that at least one byte 
-		//of padding is before ptr. 
+		//align then preserves this alignment. Starting from base+sizeof(uint32_t)
+		//ensures that there is room for the offset before ptr. 
 		//This trick borrowed from Johan Mabille
 		//https://jmabille.github.io/blog/2014/12/06/aligned-memory-allocator/
-		ptr=reinterpret_cast<void*>((reinterpret_cast<size_type>(ptr) & ~(alignment-1))+alignment);
-		//Stash the offset in our guaranteed byte of padding where we can find it later
-		*((uint8_t*)ptr-1)=offset;
+		char* ptr=reinterpret_cast<char*>((reinterpret_cast<size_type>(base+sizeof(uint32_t)-1) & ~(alignment-1))+alignment);
+		//Stash the offset in our guaranteed padding where we can find it later
+		uint32_t offset=ptr-base;
+		std::memcpy(ptr-sizeof(offset),&offset,sizeof(offset));
 		
-		return(pointer(ptr));
+		return(reinterpret_cast<pointer>(ptr));
 	}
 	
 	void deallocate(pointer p, size_type n){
 		if(!p) //ignore NULL pointers
 			return;
 		
-		uint8_t* ptr=(uint8_t*)p;
+		char* ptr=reinterpret_cast<char*>(p);
 		//find our stashed offset value
-		uint8_t offset=*(ptr-1);
+		uint32_t offset;
+		std::memcpy(&offset,ptr-sizeof(offset),sizeof(offset));
 		//recover the real pointer
 		ptr-=offset;
 		delete[] ptr;
-- 
2.43.0


From e66b2d9d1921e23975dd30f960786fc55beac349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:26 +0000
Subject: [PATCH 010/100] fix: marray::swap can be used

---
 include/nuSQuIDS/marray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 962ad7f..1a84c4e 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -912,13 +912,13 @@ public:
 	//TODO: noexcept condition is wrong if swap(allocator_type&,allocator_type&) is found via ADL
 	///Swap contents with another array
 	void swap(marray& other)
-	noexcept(!allocator_traits::propagate_on_container_swap::value || noexcept(std::swap(std::declval<allocator_type>(),std::declval<allocator_type>())))
+	noexcept(!allocator_traits::propagate_on_container_swap::value || noexcept(std::swap(std::declval<allocator_type&>(),std::declval<allocator_type&>())))
 	{
 		using std::swap;
 		for(unsigned int i=0; i<Rank; i++)
 			swap(extents[i],other.extents[i]);
 		swap(total_size(),other.total_size());
-		swap_allocator(other.allocator(),allocator_traits::propagate_on_container_swap());
+		swap_allocator(other.allocator(),typename allocator_traits::propagate_on_container_swap());
 		swap(data,other.data);
 	}
 	
-- 
2.43.0


From bd5d93bfff1689af30b64a08c78a0cdf337aacee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:49 +0000
Subject: [PATCH 011/100] fix: marray built from an initializer does not
 destroy the element whose construction failed

---
 include/nuSQuIDS/marray.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/marray.h b/include/nuSQuIDS/marray.h
index 1a84c4e..f1f98c4 100644
--- a/include/nuSQuIDS/marray.h
+++ b/include/nuSQuIDS/marray.h
@@ -350,7 +350,10 @@ template<typename T, unsigned int Rank, typename Allocator>
 struct multidimensional_initializer<T,Rank,Allocator,1>{
 	static void initialize(const typename detail::initializer_for_rank<T,1>::type& init, Allocator& alloc, T*& write_ptr){
 		for(const auto& i : init)
-			std::allocator_traits<Allocator>::construct(alloc,write_ptr++,i);
+		{
+			std::allocator_traits<Allocator>::construct(alloc,write_ptr,i);
+			write_ptr++; //only count the element once it exists
+		}
 	}
 	static void assign(const typename detail::initializer_for_rank<T,1>::type& init, T*& write_ptr){
 		for(const auto& i : init)
-- 
2.43.0


From 4b86432e754180be41e0349cce4b47b17b0dd567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 012/100] fix: TriCubicInterpolator takes its y-z mixed
 derivative from the y slice

---
 src/tools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 75788f0..701c745 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -569,7 +569,7 @@ d3fdxdydz(data.get_extents(),nusquids::detail::no_init)
 			spline.initialize(ycoords.get_data(),yslice.get_data(),jMax);
 			spline.getAbscissaDerivatives(yslice);
 			for(std::size_t j=0; j!=jMax; j++)
-				d2fdydz[k][j][i]=xslice[j];
+				d2fdydz[k][j][i]=yslice[j];
 		}
 	}
 	
-- 
2.43.0


From 3b08dcfb701cceef5be6ed7b6bd906c690713863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 013/100] fix: TriCubicInterpolator can be default constructed

---
 include/nuSQuIDS/tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 8ffef6a..6b116bb 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -216,7 +216,7 @@ private:
 ///the grid points. 
 class TriCubicInterpolator{
 public:
-	TriCubicInterpolator();
+	TriCubicInterpolator(){}
 	///Contruct an interpolator over existing function data for a given grid.
 	///\param data Values of the function to be interpolated, evaluated on the grid defined by the
 	///            tensor product of the corrdinate arrays. Note that this should be in row-major
-- 
2.43.0


From 316ac4ae30f6e356b8d039dadaeadbfa1d0a0a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 014/100] fix: an empty TriCubicInterpolator evaluates to zero,
 like the bicubic one

---
 src/tools.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools.cpp b/src/tools.cpp
index 701c745..03f19c9 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -772,6 +772,9 @@ double TriCubicInterpolator::evaluate_polynomial(double c[64], double t, double
 }
 
 double TriCubicInterpolator::operator()(double x, double y, double z) const{
+	if(data.empty())
+		return 0;
+	
 	//figure out which grid cell we are in
 	auto x_it=std::upper_bound(xcoords.begin(),xcoords.end(),x);
 	std::size_t i=x<xcoords[0] ? 0 : std::distance(xcoords.begin(),x_it)-1;
-- 
2.43.0


From 4926f2843396c30c84080056fa38ae41b557bcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 015/100] fix: quickread ignores blank and comment lines
 wherever they are

---
 src/tools.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 03f19c9..8b4a0cd 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -51,7 +51,7 @@ marray<double,2> quickread(std::string filepath){
 
     std::vector< std::vector<double> > table;
     std::string line;
-    size_t column_number = -1;
+    size_t column_number = 0;
     while(getline(infile,line)){
         std::vector<double> row;
         std::stringstream linestream(line);
@@ -66,10 +66,9 @@ marray<double,2> quickread(std::string filepath){
             #endif
             if(!table.empty() and column_number != row.size())
               throw std::runtime_error("nuSQuIDS::tools::quickread: Number of columns in file not equal.");
+            column_number = row.size();
             table.push_back(row);
         }
-
-        column_number = row.size();
     }
 
     marray<double,2> otable {table.size(),column_number};
-- 
2.43.0


From 5f33c591561c2540ac65340477b50fba5e5d2693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 016/100] fix: quickwrite reports data which could not be
 written

---
 src/tools.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools.cpp b/src/tools.cpp
index 8b4a0cd..f4d26ad 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -98,6 +98,9 @@ int quickwrite(std::string filepath, const marray<double,2>& tbl){
       }
       outfile << std::endl;
     }
+    outfile.close();
+    if(!outfile)
+        throw std::runtime_error("Error: file could not be written: " + filepath);
     return 0;
 }
 
-- 
2.43.0


From 893c47d34d3d42b58aa75eccdafa7d6a5c9719ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 017/100] fix: H5File does not close a file id it does not hold

---
 include/nuSQuIDS/tools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 6b116bb..61796c8 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -258,10 +258,10 @@ struct H5File{
     hid_t id;
     H5File(hid_t id):id(id){}
     H5File(const H5File&)=delete;
-    H5File(H5File&& h):id(h.id){ h.id=0; }
+    H5File(H5File&& h):id(h.id){ h.id=-1; }
     H5File& operator=(const H5File&)=delete;
     H5File& operator=(H5File&& h){ std::swap(id,h.id); return *this;}
-    ~H5File(){ H5Fclose(id); }
+    ~H5File(){ if(id>=0) H5Fclose(id); }
     operator hid_t() const{ return(id); }
 };
 
-- 
2.43.0


From d8d68342671e91e01ba90219e87d926835d82203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 018/100] fix: IntegrateWorkspace is not copied, which freed
 its workspace twice

---
 include/nuSQuIDS/tools.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 61796c8..284b1bb 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -99,6 +99,8 @@ public:
     IntegrateWorkspace(size_t limit) {
         ws=gsl_integration_workspace_alloc(limit);
     }
+    IntegrateWorkspace(const IntegrateWorkspace&)=delete;
+    IntegrateWorkspace& operator=(const IntegrateWorkspace&)=delete;
     ~IntegrateWorkspace() {
         gsl_integration_workspace_free(ws);
     }
-- 
2.43.0


From 8f9ca18958604ba1cc308003c69f6753de2b6ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 019/100] fix: integrate does not abort when max_iter exceeds
 the workspace size

---
 include/nuSQuIDS/tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 284b1bb..fe08995 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -125,7 +125,7 @@ double integrate(IntegrateWorkspace& ws, FunctionType f, double a, double b, dou
     F.function = wrapper;
     F.params = &f;
 
-    gsl_integration_qags(&F, a, b, 0, acc, max_iter, ws.ws, &result, &error);
+    gsl_integration_qags(&F, a, b, 0, acc, std::min<size_t>(max_iter,ws.ws->limit), ws.ws, &result, &error);
 
     return(result);
 }
-- 
2.43.0


From 5e141718b5466ee9a0d9ccf9e85cec16fb3c2345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 020/100] fix: writeArrayH5 can compress an array with a zero
 extent

---
 include/nuSQuIDS/tools.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index fe08995..c5f53f0 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -325,6 +325,8 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
     std::copy_n(data.get_extents().begin(),Rank,extents.begin());
     hid_t dSpace=H5Screate_simple(Rank, &extents[0], nullptr);
     hid_t plist_id=H5P_DEFAULT;
+    if(data.empty()) //nothing to compress, and chunks may not be empty
+        compressLevel=0;
     if(compressLevel){
         assert(compressLevel<=9);
         plist_id = H5Pcreate(H5P_DATASET_CREATE);
@@ -347,7 +349,7 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
     }
     
     hid_t dSet=H5Dcreate(loc_id, name.c_str(),destType,dSpace,H5P_DEFAULT,plist_id,H5P_DEFAULT);
-    herr_t err=H5Dwrite(dSet,sourceType,H5S_ALL,H5S_ALL,H5P_DEFAULT,&data.front());
+    herr_t err=H5Dwrite(dSet,sourceType,H5S_ALL,H5S_ALL,H5P_DEFAULT,data.get_data());
     
     //need to close whether or not there's an error
     if(compressLevel)
-- 
2.43.0


From f668adf929230c6dc09ac08785f110fd8173a05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 021/100] fix: readArrayH5 closes its handles when it fails

---
 include/nuSQuIDS/tools.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index c5f53f0..a0b39a0 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -364,11 +364,9 @@ void writeArrayH5(hid_t loc_id, std::string name, const marray<SourceType,Rank,A
 
 template<typename T, unsigned int Rank, typename Alloc>
 void readArrayH5(hid_t container, const std::string& name, marray<T,Rank,Alloc>& data){
-    hid_t array_id=H5Dopen2(container, name.c_str(), H5P_DEFAULT);
-    if(array_id<0)
-        throw std::runtime_error("Failed to open dataset '"+name+"'");
+    H5Handle array_id(H5Dopen2(container, name.c_str(), H5P_DEFAULT), H5Dclose, ("open dataset '"+name+"'").c_str());
     hid_t dType=h5Datatype<T>::type();
-    hid_t dSpace = H5Dget_space(array_id);
+    H5Handle dSpace(H5Dget_space(array_id), H5Sclose, "get dataspace");
     int raw_dim = H5Sget_simple_extent_ndims(dSpace);
     if(raw_dim!=Rank)
         throw std::runtime_error("Failed to read marray from HDF5: source array has rank "
@@ -376,10 +374,8 @@ void readArrayH5(hid_t container, const std::string& name, marray<T,Rank,Alloc>&
                                  +std::to_string(Rank));
     std::array<hsize_t,Rank> extents;
     H5Sget_simple_extent_dims(dSpace,&extents[0],nullptr);
-    H5Sclose(dSpace);
     data.resize(extents);
-    herr_t err=H5Dread(array_id,dType,H5S_ALL,H5S_ALL,H5P_DEFAULT,&data.front());
-    H5Dclose(array_id);
+    herr_t err=H5Dread(array_id,dType,H5S_ALL,H5S_ALL,H5P_DEFAULT,data.get_data());
     if(err<0)
         throw std::runtime_error("Failed to array data from HDF5");
 }
-- 
2.43.0


From aa95f2d3f06bc78bc74a2598bcb42ea137d73332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 022/100] fix: addH5Attribute reports an attribute which could
 not be written, and does not leak the string type

---
 include/nuSQuIDS/tools.h | 10 +++++-----
 src/tools.cpp            | 12 ++++++------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index a0b39a0..12864d0 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -384,11 +384,11 @@ template<typename T>
 void addH5Attribute(hid_t object, std::string name, const T& contents){
     hid_t dtype=h5Datatype<T>::type();
     hsize_t dim=1;
-    hid_t dataspace_id=H5Screate_simple(1, &dim, nullptr);
-    hid_t attribute_id=H5Acreate(object,name.c_str(),dtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-    H5Awrite(attribute_id,dtype,&contents);
-    H5Aclose(attribute_id);
-    H5Sclose(dataspace_id);
+    H5Handle dataspace_id(H5Screate_simple(1, &dim, nullptr), H5Sclose, "create attribute dataspace");
+    H5Handle attribute_id(H5Acreate(object,name.c_str(),dtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT),
+                          H5Aclose, ("create attribute '"+name+"'").c_str());
+    if(H5Awrite(attribute_id,dtype,&contents)<0)
+        throw std::runtime_error("Failed to write attribute '"+name+"'");
 };
 
 template<>
diff --git a/src/tools.cpp b/src/tools.cpp
index f4d26ad..0ecfa72 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -812,14 +812,14 @@ bool h5ObjectExists(hid_t loc_id, const char* name){
     
 template<>
 void addH5Attribute<std::string>(hid_t object, std::string name, const std::string& contents){
-    hid_t strtype = H5Tcopy(H5T_C_S1);
+    H5Handle strtype(H5Tcopy(H5T_C_S1), H5Tclose, "copy string datatype");
     H5Tset_size(strtype, contents.size());
     hsize_t dim=1;
-    hid_t dataspace_id = H5Screate_simple(1, &dim, nullptr);
-    hid_t attribute_id = H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-    H5Awrite(attribute_id, strtype, &contents[0]);
-    H5Aclose(attribute_id);
-    H5Sclose(dataspace_id);
+    H5Handle dataspace_id(H5Screate_simple(1, &dim, nullptr), H5Sclose, "create attribute dataspace");
+    H5Handle attribute_id(H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT),
+                          H5Aclose, ("create attribute '"+name+"'").c_str());
+    if(H5Awrite(attribute_id, strtype, &contents[0])<0)
+        throw std::runtime_error("Failed to write attribute '"+name+"'");
 };
 
 template<>
-- 
2.43.0


From 9b339b7bb11b7b5c96a1846705e8f28c03d61f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 023/100] fix: an empty string attribute reads back as empty

---
 src/tools.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 0ecfa72..30f5473 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -813,9 +813,11 @@ bool h5ObjectExists(hid_t loc_id, const char* name){
 template<>
 void addH5Attribute<std::string>(hid_t object, std::string name, const std::string& contents){
     H5Handle strtype(H5Tcopy(H5T_C_S1), H5Tclose, "copy string datatype");
-    H5Tset_size(strtype, contents.size());
+    if(!contents.empty()) //the size of a string type may not be zero
+        H5Tset_size(strtype, contents.size());
     hsize_t dim=1;
-    H5Handle dataspace_id(H5Screate_simple(1, &dim, nullptr), H5Sclose, "create attribute dataspace");
+    H5Handle dataspace_id(contents.empty() ? H5Screate(H5S_NULL) : H5Screate_simple(1, &dim, nullptr),
+                          H5Sclose, "create attribute dataspace");
     H5Handle attribute_id(H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT),
                           H5Aclose, ("create attribute '"+name+"'").c_str());
     if(H5Awrite(attribute_id, strtype, &contents[0])<0)
@@ -833,6 +835,16 @@ void readH5Attribute<std::string>(hid_t object, std::string name, std::string& d
         throw std::runtime_error("Expected and actual data types for attribute '"+name+"' do not match");
     }
     
+    hid_t space = H5Aget_space(attribute_id);
+    bool empty = (H5Sget_simple_extent_type(space)==H5S_NULL);
+    H5Sclose(space);
+    if(empty){
+        H5Aclose(attribute_id);
+        H5Tclose(actualType);
+        dest.clear();
+        return;
+    }
+    
     size_t size = H5Tget_size(actualType);
     dest.resize(size);
     
-- 
2.43.0


From b6783bf17043caa13f3270003a12429702aa888c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 024/100] fix: TauDecaySpectra checks the neutrino type index

---
 src/taudecay.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/taudecay.cpp b/src/taudecay.cpp
index 9c23041..518875d 100644
--- a/src/taudecay.cpp
+++ b/src/taudecay.cpp
@@ -160,25 +160,25 @@ void TauDecaySpectra::Init(marray<double,1> E_range){
 // tau decay spectra returned in units of [GeV^-1]
 
 double TauDecaySpectra::dNdEnu_All(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEnu_All_tbl.extent(1) or i_ele >= dNdEnu_All_tbl.extent(2))
+  if(i_enu >= dNdEnu_All_tbl.extent(1) or i_ele >= dNdEnu_All_tbl.extent(2) or neutrino_type >= dNdEnu_All_tbl.extent(0))
     throw std::runtime_error("TauDecaySpectra:dNdEnu_All in valid index choices");
   return dNdEnu_All_tbl[neutrino_type][i_enu][i_ele];
 }
 
 double TauDecaySpectra::dNdEnu_Lep(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEnu_Lep_tbl.extent(1) or i_ele >= dNdEnu_Lep_tbl.extent(2))
+  if(i_enu >= dNdEnu_Lep_tbl.extent(1) or i_ele >= dNdEnu_Lep_tbl.extent(2) or neutrino_type >= dNdEnu_Lep_tbl.extent(0))
     throw std::runtime_error("TauDecaySpectra:dNdEnu_Lep in valid index choices");
   return dNdEnu_Lep_tbl[neutrino_type][i_enu][i_ele];
 }
 
 double TauDecaySpectra::dNdEle_All(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEle_All_tbl.extent(1) or i_ele >= dNdEle_All_tbl.extent(2))
+  if(i_enu >= dNdEle_All_tbl.extent(1) or i_ele >= dNdEle_All_tbl.extent(2) or neutrino_type >= dNdEle_All_tbl.extent(0))
     throw std::runtime_error("TauDecaySpectra:dNdEle_All in valid index choices");
   return dNdEle_All_tbl[neutrino_type][i_enu][i_ele];
 }
 
 double TauDecaySpectra::dNdEle_Lep(unsigned int i_enu,unsigned int i_ele, unsigned int neutrino_type) const{
-  if(i_enu >= dNdEle_Lep_tbl.extent(1) or i_ele >= dNdEle_Lep_tbl.extent(2))
+  if(i_enu >= dNdEle_Lep_tbl.extent(1) or i_ele >= dNdEle_Lep_tbl.extent(2) or neutrino_type >= dNdEle_Lep_tbl.extent(0))
     throw std::runtime_error("TauDecaySpectra:dNdEle_Lepin valid index choices");
   return dNdEle_Lep_tbl[neutrino_type][i_enu][i_ele];
 }
-- 
2.43.0


From 8f7e04ce003ff04e0e1576fba1e0c4ae61eee8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 025/100] fix: aligned_allocator can be rebound and compared
 across types

---
 include/nuSQuIDS/aligned_alloc.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nuSQuIDS/aligned_alloc.h b/include/nuSQuIDS/aligned_alloc.h
index e81520e..359f0e7 100644
--- a/include/nuSQuIDS/aligned_alloc.h
+++ b/include/nuSQuIDS/aligned_alloc.h
@@ -147,6 +147,8 @@ public:
 	}
 	
 private:
+	template <typename U> friend class aligned_allocator;
+	
 	///Log base 2 of alignment, in bytes. 
 	///Must be <32. 
 	uint8_t align_pow;
-- 
2.43.0


From 81aa83cc717c19327cb5fdf094e0b8804d8e05ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 026/100] fix: AdaptiveQuad keeps known endpoint values with
 their endpoints when the interval is reversed

---
 include/nuSQuIDS/AdaptiveQuad.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/nuSQuIDS/AdaptiveQuad.h b/include/nuSQuIDS/AdaptiveQuad.h
index 479e83e..26ab44a 100644
--- a/include/nuSQuIDS/AdaptiveQuad.h
+++ b/include/nuSQuIDS/AdaptiveQuad.h
@@ -191,17 +191,20 @@ namespace AdaptiveQuad{
 		
 		//compute function endpoint values if not given
 		double fa,fb;
-		if(options && !std::isnan(options->fa))
-			fa=options->fa;
+		//options refers to the endpoints as the caller ordered them
+		double* knownfa=options ? (reverse ? &options->fb : &options->fa) : nullptr;
+		double* knownfb=options ? (reverse ? &options->fa : &options->fb) : nullptr;
+		if(knownfa && !std::isnan(*knownfa))
+			fa=*knownfa;
 		else{
 			fa=integrand(a);
-			if(options) options->fa=fa;
+			if(knownfa) *knownfa=fa;
 		}
-		if(options && !std::isnan(options->fb))
-			fb=options->fb;
+		if(knownfb && !std::isnan(*knownfb))
+			fb=*knownfb;
 		else{
 			fb=integrand(b);
-			if(options) options->fb=fb;
+			if(knownfb) *knownfb=fb;
 		}
 		
 		//create initial interval with function endpoint values
-- 
2.43.0


From c47b7b5e102eb54862f36041553394aca027fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:20 +0000
Subject: [PATCH 027/100] fix: AdaptiveQuad does not subdivide without end
 where the integrand is not a number

---
 include/nuSQuIDS/AdaptiveQuad.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/AdaptiveQuad.h b/include/nuSQuIDS/AdaptiveQuad.h
index 26ab44a..85d736d 100644
--- a/include/nuSQuIDS/AdaptiveQuad.h
+++ b/include/nuSQuIDS/AdaptiveQuad.h
@@ -261,8 +261,10 @@ namespace AdaptiveQuad{
 			//subdivide it further. If there is not, or subdivision is not 
 			//possible, commit its contribution to the total estimate. 
 			auto processSubinterval=[&](Interval& i){
-				if(i.badness(tol)<=0 || !i.canSubdivide()){
-					if(!i.canSubdivide())
+				const double badness=i.badness(tol);
+				//an estimate which is not a number cannot be improved by subdivision
+				if(badness<=0 || std::isnan(badness) || !i.canSubdivide()){
+					if(std::isnan(badness) || !i.canSubdivide())
 						outOfTolerance=true;
 					accumulate(i.value,i.i2);
 				}
-- 
2.43.0


From fa713647186e538ceb463ddd0a3270af8340b37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 028/100] fix: readArrayH5 does not use extents it could not
 obtain

---
 include/nuSQuIDS/tools.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 12864d0..97007af 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -373,7 +373,8 @@ void readArrayH5(hid_t container, const std::string& name, marray<T,Rank,Alloc>&
                                  +std::to_string(raw_dim)+" but target array has rank "
                                  +std::to_string(Rank));
     std::array<hsize_t,Rank> extents;
-    H5Sget_simple_extent_dims(dSpace,&extents[0],nullptr);
+    if(H5Sget_simple_extent_dims(dSpace,&extents[0],nullptr)<0)
+        throw std::runtime_error("Failed to get extents of dataset '"+name+"'");
     data.resize(extents);
     herr_t err=H5Dread(array_id,dType,H5S_ALL,H5S_ALL,H5P_DEFAULT,data.get_data());
     if(err<0)
-- 
2.43.0


From fe9edf0b92fb149b77e479665c4a6f3af8ad0974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 029/100] fix: string attributes report a type size or
 dataspace which could not be set or obtained

---
 src/tools.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/tools.cpp b/src/tools.cpp
index 30f5473..2a97669 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -813,8 +813,10 @@ bool h5ObjectExists(hid_t loc_id, const char* name){
 template<>
 void addH5Attribute<std::string>(hid_t object, std::string name, const std::string& contents){
     H5Handle strtype(H5Tcopy(H5T_C_S1), H5Tclose, "copy string datatype");
-    if(!contents.empty()) //the size of a string type may not be zero
-        H5Tset_size(strtype, contents.size());
+    if(!contents.empty()){ //the size of a string type may not be zero
+        if(H5Tset_size(strtype, contents.size())<0)
+            throw std::runtime_error("Failed to set the size of attribute '"+name+"'");
+    }
     hsize_t dim=1;
     H5Handle dataspace_id(contents.empty() ? H5Screate(H5S_NULL) : H5Screate_simple(1, &dim, nullptr),
                           H5Sclose, "create attribute dataspace");
@@ -836,9 +838,15 @@ void readH5Attribute<std::string>(hid_t object, std::string name, std::string& d
     }
     
     hid_t space = H5Aget_space(attribute_id);
-    bool empty = (H5Sget_simple_extent_type(space)==H5S_NULL);
-    H5Sclose(space);
-    if(empty){
+    H5S_class_t spaceClass = (space<0 ? H5S_NO_CLASS : H5Sget_simple_extent_type(space));
+    if(space>=0)
+        H5Sclose(space);
+    if(spaceClass==H5S_NO_CLASS){
+        H5Aclose(attribute_id);
+        H5Tclose(actualType);
+        throw std::runtime_error("Failed to get dataspace of attribute '"+name+"'");
+    }
+    if(spaceClass==H5S_NULL){
         H5Aclose(attribute_id);
         H5Tclose(actualType);
         dest.clear();
-- 
2.43.0


From 8ab90ebb90ebd2861d5bc6c80a29d67713d9a518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 030/100] fix: close the string type made for body and track
 names

---
 src/body.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/body.cpp b/src/body.cpp
index 96d6a0b..6d0a94a 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -59,6 +59,7 @@ void addStringAttribute(hid_t object, std::string name, std::string contents){
   H5Awrite(attribute_id, strtype, &contents[0]);
   H5Aclose(attribute_id);
   H5Sclose(dataspace_id);
+  H5Tclose(strtype);
 }
 
 //not currently used
-- 
2.43.0


From a240fcfdf47ca695a9d972875b35a179fbf56ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 031/100] fix: use the solar radius of the SunASnu tracks when
 it is built from tables

---
 src/body.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index 6d0a94a..b32e46c 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -580,7 +580,7 @@ SunASnu::SunASnu(std::vector<double> x,std::vector<double> rho,std::vector<doubl
 Body(),sun_radius(std::move(x)),sun_density(std::move(rho)),sun_xh(std::move(xh)),
 inter_density(sun_radius,sun_density),inter_xh(sun_radius,sun_xh)
 {
-  radius = 695980.0*param.km;
+  radius = 694439.0*param.km;
   arraysize = sun_radius.size();
 }
 
-- 
2.43.0


From d6314e719958b24e96855e3632056f24617839e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 032/100] fix: store and restore the impact parameter of
 SunASnu tracks

---
 src/body.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index b32e46c..f1654ac 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -598,13 +598,17 @@ void SunASnu::Track::Serialize(hid_t group) const {
   addDoubleAttribute(group,"x",x);
   addDoubleAttribute(group,"xini",xini);
   addDoubleAttribute(group,"xend",xend);
+  addDoubleAttribute(group,"b_impact",b_impact);
 }
 
 std::shared_ptr<SunASnu::Track> SunASnu::Track::Deserialize(hid_t group){
   double x_   =readDoubleAttribute(group,"x");
   double xini_=readDoubleAttribute(group,"xini");
   double xend_=readDoubleAttribute(group,"xend");
-  return std::make_shared<SunASnu::Track>(x_,xini_,xend_);
+  double b_impact_=readDoubleAttribute(group,"b_impact");
+  auto track=std::make_shared<SunASnu::Track>(x_,xini_,b_impact_);
+  track->xend=xend_;
+  return track;
 }
 
 void SunASnu::Serialize(hid_t group) const {
-- 
2.43.0


From 0a85adc280d0c5cf26daec5168213262c1f950c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 033/100] fix: record the radius and height in EarthAtm tracks
 made from the zenith cosine

---
 src/body.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/body.cpp b/src/body.cpp
index f1654ac..698a6bb 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -777,6 +777,8 @@ EarthAtm::Track::MakeWithCosine(double cosphi, double earth_radius_, double atmh
   Track track;
 
   track.cosphi = cosphi;
+  track.earth_radius = earth_radius_;
+  track.atmheight = atmheight_;
   double sinsqphi = 1-track.cosphi*track.cosphi;
 
   track.L = sqrt(SQR(earth_radius_+atmheight_)-earth_radius_*earth_radius_*sinsqphi)-earth_radius_*cosphi;
-- 
2.43.0


From 3a2b46c284297ba16d4158d5eb4999bbacc34f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 034/100] fix: restore the end points of EarthAtm tracks

---
 src/body.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/body.cpp b/src/body.cpp
index 698a6bb..cd5875f 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -722,8 +722,10 @@ void EarthAtm::Track::Serialize(hid_t group) const {
 }
 
 std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
-  double x, cosphi;
+  double x, xini, xend, cosphi;
   readH5Attribute(group,"x", x);
+  readH5Attribute(group,"xini", xini);
+  readH5Attribute(group,"xend", xend);
   readH5Attribute(group,"cosphi",cosphi);
   // these parameters were originally not serialized, so give them default values equal to what
   // was originally hard-coded
@@ -735,6 +737,8 @@ std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
     readH5Attribute(group,"atmheight", atmheight);
   auto track=std::make_shared<EarthAtm::Track>(EarthAtm::Track::MakeWithCosine(cosphi,earth_radius,atmheight));
   track->SetX(x);
+  track->xini = xini;
+  track->xend = xend;
   return track;
 }
 
-- 
2.43.0


From a7106cf8dbdadd0c0d355ba4c1a3ddbfa79b9cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:20 +0000
Subject: [PATCH 035/100] fix: do not extrapolate the EarthAtm tables at
 exactly the surface

---
 src/body.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index cd5875f..451ba33 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -820,7 +820,7 @@ double EarthAtm::density(const GenericTrack& track_input) const
   if ( rel_r < x_radius_min ){
     return x_rho_min;
   }
-  else if ( rel_r > x_radius_max and r < radius) {
+  else if ( rel_r > x_radius_max and r <= radius) {
     return x_rho_max;
   }
   else if ( r > radius) {
@@ -846,7 +846,7 @@ double EarthAtm::ye(const GenericTrack& track_input) const
   if ( rel_r < x_radius_min ){
     return x_ye_min;
   }
-  else if ( rel_r > x_radius_max and r < radius) {
+  else if ( rel_r > x_radius_max and r <= radius) {
     return x_ye_max;
   }
   else if ( r > radius ){
-- 
2.43.0


From fad42ca66f09d74a20ba668b869a5af61e08c304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 036/100] fix: write differential cross section text tables
 with the right element for each energy and z

---
 src/xsections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 0c3ed7c..a9bacca 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -355,7 +355,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 		for(std::size_t i=0, iMax=x.extent(0); i!=iMax; i++){
 			double en=pow(10.,x[i])/GeV;
 			for(std::size_t j=0, jMax=y.extent(0); j!=jMax; j++)
-				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[i][j]) << '\n';
+				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[j][i]) << '\n';
 		}
 	};
 	NeutrinoFlavor flavor;
-- 
2.43.0


From 8e32f482e74d94eb2b7f72282b9b59c6923ca42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 037/100] fix: read cross section HDF5 tables which are not
 square

---
 include/nuSQuIDS/xsections.h | 2 +-
 src/xsections.cpp            | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/nuSQuIDS/xsections.h b/include/nuSQuIDS/xsections.h
index 7bf58f6..a69e848 100755
--- a/include/nuSQuIDS/xsections.h
+++ b/include/nuSQuIDS/xsections.h
@@ -492,7 +492,7 @@ public:
     /// whose values are the base-ten logarithms of the differential cross 
     /// section with respect to y, in square centimeters, for the indicated 
     /// current and impinging particle type. The dimensions of these datasets 
-    /// are energy and 'z', corresponding to the values in the energies and zs
+    /// are 'z' and energy, corresponding to the values in the zs and energies
     /// datasets. Since 'z' is not well-defined for the lowest incoming neutrino 
     /// energy in the tables, E_in = E_min, the row corresponding to this energy 
     /// should contain a small value (but not negative infinity), which will 
diff --git a/src/xsections.cpp b/src/xsections.cpp
index a9bacca..a0823bc 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -398,10 +398,10 @@ NeutrinoDISCrossSectionsFromTables::readFlavorHDF5(hid_t sourceLoc,
 	marray<double,2> buffer2;
 	auto readDifferential=[&](BiCubicInterpolator& dest, const std::string& tableName){
 		readArrayH5(sourceLoc, tableName, buffer2); //reallocates the target array 
-		if(buffer2.extent(0)!=energies.extent(0))
-			throw std::runtime_error(tableName+" does not have the same first dimension as energies");
-		if(buffer2.extent(1)!=zs.extent(0))
-			throw std::runtime_error(tableName+"'s second dimension does not have the same size as zs");
+		if(buffer2.extent(0)!=zs.extent(0))
+			throw std::runtime_error(tableName+"'s first dimension does not have the same size as zs");
+		if(buffer2.extent(1)!=energies.extent(0))
+			throw std::runtime_error(tableName+" does not have the same second dimension as energies");
 		dest=BiCubicInterpolator(std::move(buffer2),energies,zs);
 	};
 	readDifferential(data->dsdy_CC_nu,"dsdy_CC_nu");
-- 
2.43.0


From b7e6a061a8a9e1f8acad0c2bc14eeddbec933be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 038/100] fix: store the cross sections of the muon flavor in
 HDF5 files

---
 src/xsections.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index a0823bc..fee3ff1 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -568,7 +568,7 @@ void NeutrinoDISCrossSectionsFromTables::WriteHDF(const std::string& path, unsig
 		writeFlavorHDF5(nueGrp, getFlavor(electron), compressionLevel);
 	}
 	
-	if(true || flavorsSame(electron,muon))
+	if(flavorsSame(electron,muon))
 		makeAlias("electron","muon");
 	else{
 		H5Handle numuGrp(H5Gcreate(h5file, "muon", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create HDF5 group for nu_mu cross sections");
-- 
2.43.0


From c5304f11e354436b07e0ab48f367cfce0745036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 039/100] fix: NeutrinoDISCrossSectionsFromTables_V1 does not
 read past its tables at the highest energy

---
 src/xsections.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index fee3ff1..153b709 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -626,8 +626,8 @@ quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/Ge
   double logE = log(Enu);
   double dlogE = logE_data_range[1]-logE_data_range[0];
   size_t idx = static_cast<size_t>((logE-logE_data_range[0])/dlogE);
-  if(idx==div)
-    idx--;
+  if(idx>div-2) //the last node belongs to the last interval
+    idx=div-2;
   const marray<double,3>& sigma=(current==CC ? s_CC_data : s_NC_data);
   return(LinInter(logE,logE_data_range[idx],logE_data_range[idx+1],sigma[neutype][flavor][idx],sigma[neutype][flavor][idx+1]));
 }
@@ -656,6 +656,8 @@ quested below "+std::to_string(Emin/GeV)+" GeV or above "+std::to_string(Emax/Ge
 
   if ((loge_M2 > div-1) or (loge_M1 > div-1) or (E2 >= E1))
     return 0.0;
+  if (loge_M2 > div-2) // just below the last node, the last interval
+    loge_M2 = div-2;
 
   //std::cout << E1 << " " << E2 << " " << loge_M1 << " " << loge_M2 << " " << div << std::endl;
   double phiMM,phiMP,phiPM,phiPP;
-- 
2.43.0


From 722e47188cfff0d65507f29c844c802501af7818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 040/100] fix: report cross section text tables which could not
 be written

---
 src/xsections.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 153b709..1b8afd3 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -344,6 +344,9 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 		auto ord=data.getOrdinates();
 		for(std::size_t i=0, n=ab.extent(0); i!=n; i++)
 			outfile << pow(10.,ab[i])/GeV << ' ' << pow(10.,ord[i]) << '\n';
+		outfile.close();
+		if(!outfile)
+			throw std::runtime_error("Failed to write "+path);
 	};
 	auto write2D=[this](const BiCubicInterpolator& data, const std::string& path){
 		std::ofstream outfile(path);
@@ -357,6 +360,9 @@ void NeutrinoDISCrossSectionsFromTables::WriteText(const std::string& prefix) co
 			for(std::size_t j=0, jMax=y.extent(0); j!=jMax; j++)
 				outfile << en << ' ' << y[j] << ' ' << pow(10.,z[j][i]) << '\n';
 		}
+		outfile.close();
+		if(!outfile)
+			throw std::runtime_error("Failed to write "+path);
 	};
 	NeutrinoFlavor flavor;
 	std::string name;
@@ -824,6 +830,9 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
       }
       out << '\n';
     }
+    out.close();
+    if(!out)
+      throw std::runtime_error("Failed to write "+path);
   };
   writeTotal(filename_sigma_CC,s_CC_data,logE_data_range,GeV);
   writeTotal(filename_sigma_NC,s_NC_data,logE_data_range,GeV);
@@ -843,6 +852,9 @@ void NeutrinoDISCrossSectionsFromTables_V1::WriteText(std::string basePath) cons
         out << '\n';
       }
     }
+    out.close();
+    if(!out)
+      throw std::runtime_error("Failed to write "+path);
   };
   writeDifferential(filename_dsde_CC,dsde_CC_data,logE_data_range,GeV);
   writeDifferential(filename_dsde_NC,dsde_NC_data,logE_data_range,GeV);
-- 
2.43.0


From 4a60a19f7af8417f916e3246b281943af9e0a5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:50 +0000
Subject: [PATCH 041/100] fix: refuse NeutrinoDISCrossSectionsFromTables_V1
 tables whose sizes do not fit together

---
 src/xsections.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 1b8afd3..eaba4eb 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -726,7 +726,13 @@ void NeutrinoDISCrossSectionsFromTables_V1::ReadText(std::string root){
           // check table shapes and get the number of energy nodes
           unsigned int data_e_size = 0;
           if( sigma_CC_raw_data.extent(0) == sigma_NC_raw_data.extent(0) and
-              sigma_NC_raw_data.extent(1) == sigma_NC_raw_data.extent(1) )
+              sigma_CC_raw_data.extent(0) >= 2 and
+              sigma_CC_raw_data.extent(1) >= 7 and
+              sigma_NC_raw_data.extent(1) >= 7 and
+              dsde_CC_raw_data.extent(0) == sigma_CC_raw_data.extent(0)*sigma_CC_raw_data.extent(0) and
+              dsde_NC_raw_data.extent(0) == sigma_CC_raw_data.extent(0)*sigma_CC_raw_data.extent(0) and
+              dsde_CC_raw_data.extent(1) >= 8 and
+              dsde_NC_raw_data.extent(1) >= 8 )
             data_e_size = sigma_CC_raw_data.extent(0);
           else
             throw std::runtime_error("nuSQUIDS::xsections::init: Data tables not the same size.");
@@ -780,16 +786,14 @@ NeutrinoDISCrossSectionsFromTables_V1::NeutrinoDISCrossSectionsFromTables_V1(std
       readArrayH5(h5file, "dsDE_CC", dsde_CC_data);
       readArrayH5(h5file, "dsDE_NC", dsde_NC_data);
     }
-    //TODO: make sanity checking more user friendly
-    assert(dsde_CC_data.extent(2)==dsde_CC_data.extent(3));
-    assert(dsde_NC_data.extent(2)==dsde_NC_data.extent(3));
-    assert(dsde_CC_data.extent(2)==dsde_NC_data.extent(2));
-    assert(dsde_CC_data.extent(0)==2);
-    assert(dsde_NC_data.extent(0)==2);
-    assert(dsde_CC_data.extent(1)==3);
-    assert(dsde_NC_data.extent(1)==3);
-    
     div=dsde_CC_data.extent(2);
+    bool consistent=div>=2;
+    for(const marray<double,4>* table : {&dsde_CC_data,&dsde_NC_data})
+      consistent=consistent && table->extent(0)==2 && table->extent(1)==3 && table->extent(2)==div && table->extent(3)==div;
+    for(const marray<double,3>* table : {&s_CC_data,&s_NC_data})
+      consistent=consistent && table->extent(0)==2 && table->extent(1)==3 && table->extent(2)==div;
+    if(!consistent)
+      throw std::runtime_error("nuSQUIDS::xsections::init: Data tables in "+path+" do not have matching sizes.");
     unsigned int data_e_size=div;
     auto raw_logE_data_range=logspace(Emin/GeV,Emax/GeV,div);
     logE_data_range.resize(data_e_size);
-- 
2.43.0


From 9a04b791663eeb9087918371e9536177769c9b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:12 +0000
Subject: [PATCH 042/100] fix: check the energy domain of every flavor's first
 cross section table

---
 src/xsections.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index eaba4eb..078937f 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -279,6 +279,8 @@ NeutrinoDISCrossSectionsFromTables::readFlavorText(const std::string& prefix,
 		Emax=eMaxTmp;
 		erangeSrc=prefix+"nu_sigma_CC.dat";
 	}
+	else if(eMinTmp!=Emin || eMaxTmp!=Emax)
+		throw std::runtime_error(prefix+"nu_sigma_CC.dat has different energy domain than "+erangeSrc);
 	std::tie(data->s_NC_nu,eMinTmp,eMaxTmp)=read1DInterpolationFromText(prefix+"nu_sigma_NC.dat");
 	if(eMinTmp!=Emin || eMaxTmp!=Emax)
 		throw std::runtime_error(prefix+"nu_sigma_NC.dat has different energy domain than "+erangeSrc);
-- 
2.43.0


From 29fbe01efadc7859ef8fb77ee1d60e07daa952f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 043/100] fix: the Glashow resonance cross section does not
 rise again below its threshold

---
 src/xsections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xsections.cpp b/src/xsections.cpp
index 078937f..76d3fde 100644
--- a/src/xsections.cpp
+++ b/src/xsections.cpp
@@ -891,6 +891,9 @@ double GlashowResonanceCrossSection::TotalCrossSection(double Enu, NeutrinoFlavo
   // see e.g. arxiv:1108.3163v2, Eq. 2.1
   const double &m = constants.electron_mass;
   const double &mu = constants.muon_mass;
+  // there is no such reaction below the threshold for producing the muon
+  if (Enu <= (mu*mu - m*m)/(2*m))
+    return std::numeric_limits<double>::min();
   return 2*fermi_scale*Enu*pow(1. - (mu*mu - m*m)/(2*m*Enu), 2)
    / (pow(1. - 2*m*Enu/(M_W*M_W), 2) + pow(W_total/M_W, 2)) / B_Muon / 3;
 }
-- 
2.43.0


From 876f1aae9faa11f38568d7d19879493d82dcac34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 044/100] fix: neutral-current potential of matter without
 electrons

---
 src/nuSQuIDS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 948f037..b9086b7 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -336,7 +336,7 @@ squids::SU_vector nuSQUIDS::HI(unsigned int ie, unsigned int irho) const{
     double NC;
 
     if (current_ye < 1.0e-10)
-      NC = HI_constants*current_density;
+      NC = -0.5*HI_constants*current_density*(1.0-current_ye);
     else
       NC = CC*(-0.5*(1.0-current_ye)/current_ye);
     // antineutrino matter potential flips sign
-- 
2.43.0


From 94853cb113263f32d723ea5594696c31f1ca2ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 045/100] fix: the solver step points along the track however
 many tracks were traversed before

---
 src/nuSQuIDS.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index b9086b7..e8b4acc 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1250,11 +1250,8 @@ void nuSQUIDS::EvolveState(){
   if( !ioscillations && iinteraction)
     SetUpInteractionCache();
 
-  // is track time reversed
-  if(track->GetFinalX() < track->GetInitialX()){
-    // flip the arrow of time
-    Set_h((-1.0)*Get_h());
-  }
+  // the step must point along the track, which may be time reversed
+  Set_h(track->GetFinalX() < track->GetInitialX() ? -std::abs(Get_h()) : std::abs(Get_h()));
 
   if ( (body->IsConstantDensity() and not iinteraction) and allowConstantDensityOscillationOnlyEvolution ){
     // when only oscillations are considered and the density is constant
-- 
2.43.0


From fab182e4af37fff8c6f750803248cc28c414bd9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 046/100] fix: positivity steps cover exactly the track,
 whatever its start and direction

---
 src/nuSQuIDS.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index e8b4acc..e14a28f 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -96,6 +96,7 @@ void nuSQUIDS::init(double xini){
   Set_CoherentRhoTerms(true);
   Set_h(1.*params.km);
   Set_h_max(std::numeric_limits<double>::max() );
+  positivization_scale = 300.0*params.km;
 
   //===============================
   // set parameters to default   //
@@ -1287,12 +1288,14 @@ void nuSQUIDS::EvolveState(){
   }
 
   if(positivization){
-    int positivization_steps = static_cast<int>((track->GetFinalX() - track->GetInitialX())/positivization_scale);
+    double track_length = track->GetFinalX() - track->GetInitialX();
+    double positivization_step = std::copysign(positivization_scale,track_length);
+    int positivization_steps = static_cast<int>(track_length/positivization_step);
     for (int i = 0; i < positivization_steps; i++){
-      Evolve(positivization_scale);
+      Evolve(positivization_step);
       PositivizeFlavors();
     }
-    Evolve(track->GetFinalX()-positivization_scale*positivization_steps);
+    Evolve(track_length-positivization_step*positivization_steps);
     PositivizeFlavors();
   } else {
     Evolve(track->GetFinalX()-track->GetInitialX());
-- 
2.43.0


From 9235f8948d67f6442e1a387bdadda965988ec58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 047/100] fix: the constant density shortcut keeps the solution
 basis and later segments intact

---
 src/nuSQuIDS.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index e14a28f..71877fd 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1254,18 +1254,21 @@ void nuSQUIDS::EvolveState(){
   // the step must point along the track, which may be time reversed
   Set_h(track->GetFinalX() < track->GetInitialX() ? -std::abs(Get_h()) : std::abs(Get_h()));
 
-  if ( (body->IsConstantDensity() and not iinteraction) and allowConstantDensityOscillationOnlyEvolution ){
+  if ( (body->IsConstantDensity() and not iinteraction and not enable_neutrino_sources) and allowConstantDensityOscillationOnlyEvolution ){
     // when only oscillations are considered and the density is constant
     // we can ju st rotate the system to the propagation eigenstates
-    use_full_hamiltonian_for_projector_evolution = true;
-    // turn off squids numerics
-    Set_AnyNumerics(false);
+    const Basis solution_basis = basis;
     // disable interaction basis and go to mass basis
     Set_Basis(mass);
-    double evolution_time = track->GetFinalX()-track->GetInitialX();
+    for(unsigned int rho = 0; rho < nrhos; rho++)
+      for(unsigned int flv = 0; flv < numneu; flv++)
+        for(unsigned int ie = 0; ie < ne; ie++)
+          evol_b1_proj[rho][flv][ie] = b1_proj[rho][flv];
+    const double evolution_time = track->GetFinalX()-track->GetInitialX();
+    const double initial_time = Get_t()-Get_t_initial();
     // go go go
-    // in this case it only calls prederive and exits
-    Evolve(evolution_time);
+    Set_t(Get_t()+evolution_time);
+    PreDerive(Get_t());
 
     // We will now evolve each of the states manually
     squids::SU_vector tmp1(nsun);
@@ -1277,11 +1280,19 @@ void nuSQUIDS::EvolveState(){
         //std::cout << "hamiltonian " << tmp1 << std::endl;
         //here we deliberately update state directly,
         //rather than working on estate as we would is using GSL ODE evolution
-        tmp2 = state[ie].rho[rho].UTransform(tmp1,gsl_complex_rect(0.,evolution_time));
+        tmp2 = state[ie].rho[rho];
+        if(solution_basis != mass) // leave the interaction picture
+          tmp2 = squids::SU_vector(tmp2.Evolve(H0_array[ie],-initial_time));
+        tmp2 = squids::SU_vector(tmp2.UTransform(tmp1,gsl_complex_rect(0.,evolution_time)));
+        if(solution_basis != mass) // and return to it
+          tmp2 = squids::SU_vector(tmp2.Evolve(H0_array[ie],initial_time+evolution_time));
         state[ie].rho[rho] = tmp2;
         //std::cout << "despues " << E_range[ie] << " " << tmp2 << std::endl;
       }
     }
+    Set_Basis(solution_basis);
+    if(basis != mass and ioscillations)
+      EvolveProjectors(Get_t());
     if(progressbar)
       ProgressBar();
     return;
@@ -1558,8 +1569,6 @@ double nuSQUIDS::EvalFlavor(unsigned int flv, double scale, std::vector<bool>& a
 
   if(basis == mass)
     return b1_proj[0][flv]*state[0].rho[0];
-  if(use_full_hamiltonian_for_projector_evolution)
-    return evol_b1_proj[0][flv][0]*state[0].rho[0];
   return GetExpectationValue(b1_proj[0][flv], 0, 0, scale, avr);
 }
 
@@ -1594,8 +1603,6 @@ double nuSQUIDS::EvalFlavor(unsigned int flv) const{
 
   if(basis == mass)
     return b1_proj[0][flv]*state[0].rho[0];
-  if(use_full_hamiltonian_for_projector_evolution)
-    return evol_b1_proj[0][flv][0]*state[0].rho[0];
   return GetExpectationValue(b1_proj[0][flv], 0, 0);
 }
 
-- 
2.43.0


From 9a5c2952cce2eab3255f8181cc4bdf45115352a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 048/100] fix: GetHamiltonian does not add the vacuum part
 twice in the mass basis

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 71877fd..e8acfc0 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1689,6 +1689,8 @@ squids::SU_vector nuSQUIDS::GetHamiltonian(unsigned int ei, unsigned int rho){
   if (!ienergy)
     throw std::runtime_error("nuSQUIDS::Error::Energy not initialized");
   PreDerive(Get_t());
+  if(basis == mass) // already includes the vacuum part
+    return HI(ei,rho,Get_t());
   return H0(E_range[ei],rho)+HI(ei,rho,Get_t());
 }
 
-- 
2.43.0


From bff33b9df470cab79c878b6685d4e79febd3aacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 049/100] fix: switching oscillations on or off applies to the
 present state

---
 src/nuSQuIDS.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index e8acfc0..88e8511 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2835,7 +2835,28 @@ void nuSQUIDS::Set_EvolLowPassScale(double val){
   evol_lowpass_scale = val;
 }
 void nuSQUIDS::Set_IncludeOscillations(bool opt){
+  if(opt == ioscillations)
+    return;
+  // the vacuum Hamiltonian, and with it the interaction picture, is about to change
+  const bool convert_state = istate and basis != mass;
+  const double time = Get_t()-Get_t_initial();
+  if(convert_state and not opt){
+    for(unsigned int ie = 0; ie < ne; ie++)
+      for(unsigned int rho = 0; rho < nrhos; rho++)
+        state[ie].rho[rho] = squids::SU_vector(state[ie].rho[rho].Evolve(H0_array[ie],-time));
+  }
   ioscillations = opt;
+  iniH0();
+  for(unsigned int rho = 0; rho < b1_proj.extent(0); rho++)
+    for(unsigned int flv = 0; flv < numneu; flv++)
+      for(unsigned int ie = 0; ie < ne; ie++)
+        evol_b1_proj[rho][flv][ie] = b1_proj[rho][flv];
+  if(convert_state and opt){
+    for(unsigned int ie = 0; ie < ne; ie++)
+      for(unsigned int rho = 0; rho < nrhos; rho++)
+        state[ie].rho[rho] = squids::SU_vector(state[ie].rho[rho].Evolve(H0_array[ie],time));
+    EvolveProjectors(Get_t());
+  }
 }
 
 void nuSQUIDS::Set_AllowConstantDensityOscillationOnlyEvolution(bool opt){
-- 
2.43.0


From ddf31e555891cb84378b1329fb8495663f4ba3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 050/100] fix: cross sections, tau regeneration and the Glashow
 resonance can be changed after an evolution

---
 include/nuSQuIDS/nuSQuIDS.h | 1 +
 src/nuSQuIDS.cpp            | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 3e39927..4baf35d 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1040,6 +1040,7 @@ protected:
     /// \brief Returns the neutrino interaction cross sections
     void SetNeutrinoCrossSections(std::shared_ptr<CrossSectionLibrary> xs) {
        ncs=xs;
+       int_struct.reset(); //tabulated from the previous cross sections
        interactions_initialized=false;
     }
 
diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 88e8511..ecac8a3 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2814,12 +2814,19 @@ void nuSQUIDS::Set_TauRegeneration(bool opt){
     throw std::runtime_error("nuSQUIDS::Error::nuSQuIDs has been initialized without interactions, thus tau regeneration cannot be enabled.");
   if( numneu < 3 and opt )
     throw std::runtime_error("nuSQUIDS::Error::nuSQuIDs at least three neutrino flavors must be included to enable tau regeneration.");
+  if( opt and not tauregeneration )
+    interactions_initialized = false; //the intermediate buffers will be needed
   tauregeneration = opt;
 }
   
 void nuSQUIDS::Set_GlashowResonance(bool opt){
   if( not iinteraction and opt )
     throw std::runtime_error("nuSQUIDS::Error::nuSQuIDs has been initialized without interactions, thus the Glashow resonance cannot be enabled.");
+  if( opt and not iglashow ){
+    //the resonant cross section will be needed
+    int_struct.reset();
+    interactions_initialized = false;
+  }
   iglashow = opt;
 }
 
-- 
2.43.0


From 15dd816038dd079ede7cec50731acfc1098e26f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 051/100] fix: neutrinos regenerated by interactions are
 attributed to each target by its own interaction rate

---
 src/nuSQuIDS.cpp | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index ecac8a3..b1302a3 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -596,7 +596,6 @@ void nuSQUIDS::UpdateInteractions(){
   }
   
   std::vector<double> targetDensities = GetTargetNumberDensities();
-  std::vector<double> targetFractions = GetTargetNumberFractions();
   const unsigned int nTargetTypes = targetDensities.size();
   
   //A helper class for accumulating a sum into a buffer without needing a first pass 
@@ -680,13 +679,12 @@ void nuSQUIDS::UpdateInteractions(){
           //the flux of the current flavor at e2
           double flux_a_e2=projector*estate[e2].rho[rho];
           //premultiply factors which do not depend on the lower energy e1
-          flux_a_e2*=int_state.invlen_NC[rho][alpha_active][e2]*delE[e2-1];
+          flux_a_e2*=delE[e2-1];
           
           for(unsigned int trg=0; trg < nTargetTypes; trg++){
-            double tFrac=targetFractions[trg];
-            //the target fraction factor is logically more a part of dN/dE, but since it is common 
-            //to all terms it is more efficient if we attach it to the flux
-            double flux_a_e2_t=tFrac*flux_a_e2;
+            //the rate of interactions with this target type is logically more a part of dN/dE, 
+            //but since it is common to all terms it is more efficient if we attach it to the flux
+            double flux_a_e2_t=int_struct->sigma_NC[trg][rho][alpha_active][e2]*targetDensities[trg]*flux_a_e2;
             double* factors=&flavor_factors[rho][alpha_active][0];
             SQUIDS_POINTER_IS_ALIGNED(factors,preferred_alignment*sizeof(double));
             double* dNdE_ptr=&int_struct->dNdE_NC[trg][rho][alpha_active][e2][0];
@@ -717,12 +715,12 @@ void nuSQUIDS::UpdateInteractions(){
         if(nu_tau_flux<=0 && nu_tau_bar_flux<=0)
           continue;
         double dEn = delE[en-1];
-        double invlen_CC_tau     = int_state.invlen_CC[0][tau_flavor][en];
-        double invlen_CC_tau_bar = int_state.invlen_CC[1][tau_flavor][en];
         for(unsigned int trg=0; trg < nTargetTypes; trg++){ //loop over target types
-          //note that the flux is scaled by fraction of total targets
-          double nu_tau_flux_invlen_CC     =     nu_tau_flux*    invlen_CC_tau*dEn*targetFractions[trg];
-          double nu_tau_bar_flux_invlen_CC = nu_tau_bar_flux*invlen_CC_tau_bar*dEn*targetFractions[trg];
+          //note that the flux is scaled by the rate of interactions with this target type
+          double invlen_CC_tau     = int_struct->sigma_CC[trg][0][tau_flavor][en]*targetDensities[trg];
+          double invlen_CC_tau_bar = int_struct->sigma_CC[trg][1][tau_flavor][en]*targetDensities[trg];
+          double nu_tau_flux_invlen_CC     =     nu_tau_flux*    invlen_CC_tau*dEn;
+          double nu_tau_bar_flux_invlen_CC = nu_tau_bar_flux*invlen_CC_tau_bar*dEn;
           double* dNdE_CC_tau     = &int_struct->dNdE_CC[trg][0][tau_flavor][en][0];
           double* dNdE_CC_tau_bar = &int_struct->dNdE_CC[trg][1][tau_flavor][en][0];
           SQUIDS_POINTER_IS_ALIGNED(dNdE_CC_tau    ,preferred_alignment*sizeof(double));
@@ -868,12 +866,11 @@ void nuSQUIDS::UpdateInteractions(){
           //the flux of the current flavor at e2
           double flux_a_e2=evol_b1_proj[rho][alpha_active][e2]*estate[e2].rho[rho];
           //premultiply factors which do not depend on the lower energy e1
-          flux_a_e2*=int_state.invlen_NC[rho][alpha_active][e2]*delE[e2-1];
+          flux_a_e2*=delE[e2-1];
           //for each type of target within the material
           for(unsigned int trg=0; trg<nTargetTypes; trg++){
-            //scale by the fraction of the material which is this target type
-            double tFrac=targetFractions[trg];
-            double flux_a_e2_t=tFrac*flux_a_e2;
+            //scale by the rate of interactions with this target type
+            double flux_a_e2_t=int_struct->sigma_NC[trg][rho][alpha_active][e2]*targetDensities[trg]*flux_a_e2;
             double* dNdE_ptr=&int_struct->dNdE_NC[trg][rho][alpha_active][e2][0];
             SQUIDS_POINTER_IS_ALIGNED(dNdE_ptr,preferred_alignment*sizeof(double));
             double* nc_factor_ptr=&nc_factors[rho][alpha_active][0];
@@ -899,12 +896,12 @@ void nuSQUIDS::UpdateInteractions(){
         if(nu_tau_flux<=0 && nu_tau_bar_flux<=0)
           continue;
         double dEn = delE[en-1];
-        double invlen_CC_tau     = int_state.invlen_CC[0][tau_flavor][en];
-        double invlen_CC_tau_bar = int_state.invlen_CC[1][tau_flavor][en];
         for(unsigned int trg=0; trg < nTargetTypes; trg++){
-          //for convenience scale fluxes by target fraction, as usual
-          double nu_tau_flux_invlen_CC     =     nu_tau_flux*    invlen_CC_tau*dEn*targetFractions[trg];
-          double nu_tau_bar_flux_invlen_CC = nu_tau_bar_flux*invlen_CC_tau_bar*dEn*targetFractions[trg];
+          //for convenience scale fluxes by the rate of interactions with this target type, as usual
+          double invlen_CC_tau     = int_struct->sigma_CC[trg][0][tau_flavor][en]*targetDensities[trg];
+          double invlen_CC_tau_bar = int_struct->sigma_CC[trg][1][tau_flavor][en]*targetDensities[trg];
+          double nu_tau_flux_invlen_CC     =     nu_tau_flux*    invlen_CC_tau*dEn;
+          double nu_tau_bar_flux_invlen_CC = nu_tau_bar_flux*invlen_CC_tau_bar*dEn;
           double* dNdE_CC_tau     = &int_struct->dNdE_CC[trg][0][tau_flavor][en][0];
           double* dNdE_CC_tau_bar = &int_struct->dNdE_CC[trg][1][tau_flavor][en][0];
           SQUIDS_POINTER_IS_ALIGNED(dNdE_CC_tau    ,preferred_alignment*sizeof(double));
-- 
2.43.0


From a2ddaf07bbc5398630673ca5ac918abece7faca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 052/100] fix: neutrino sources are counted once when
 oscillations are off

---
 src/nuSQuIDS.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index b1302a3..ac16ae8 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -838,6 +838,7 @@ void nuSQUIDS::UpdateInteractions(){
                                     <squids::detail::EqualSizes | squids::detail::AlignedStorage>
                                     (factors_nu_tau[e1]*projector_tau);
       }
+    }
 
     if(enable_neutrino_sources){
       for(unsigned int rho = 0; rho < nrhos; rho++){
@@ -851,8 +852,6 @@ void nuSQUIDS::UpdateInteractions(){
       }
     }
 
-    }
-
   } //end of no oscillation handling
   else{ //oscillations
     NUSQUIDS_DEBUG_LABEL(NC_contribution_osc);
-- 
2.43.0


From c330b53d54423423ee0c70291c0b1e435eecc19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 053/100] fix: interaction tables which could not be completed
 are not used by the next evolution

---
 src/nuSQuIDS.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index ac16ae8..d611e77 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1004,14 +1004,17 @@ void nuSQUIDS::InitializeInteractions(){
         int_struct->targets={isoscalar_nucleon};
         nTargets=1;
       }
-      else
+      else{
+        int_struct.reset();
         throw std::runtime_error("Cross section object does not provide any suitable nucleon cross sections");
+      }
     }
     
     // initialize cross section and interaction arrays
     try {
       InitializeInteractionVectors(nTargets);
     } catch (std::exception& ex) {
+      int_struct.reset();
       std::cerr << ex.what() << std::endl;
       throw std::runtime_error("nuSQUIDS::init : Failed while trying to initialize interaction vectors [InitializeInteractionVectors]");
     }
@@ -1021,6 +1024,7 @@ void nuSQUIDS::InitializeInteractions(){
     try {
       GetCrossSections();
     } catch (std::exception& ex) {
+      int_struct.reset(); //it is incomplete
       std::cerr << ex.what() << std::endl;
       throw std::runtime_error("nuSQUIDS::init : Failed while trying to fill in interaction vectors [InitializeInteractions]");
     }
-- 
2.43.0


From 263ca597ad39000b8b3408bcc181ae3ad91eec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 054/100] fix: energies at which the Glashow resonance does not
 contribute do not spoil its spectrum; invalid resonant cross sections are
 refused

---
 src/nuSQuIDS.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index d611e77..4087251 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1156,13 +1156,22 @@ void nuSQUIDS::GetCrossSections(){
           int_struct->sigma_GR[e1] = gr_cs->AverageTotalCrossSection(E_range[e1-1],E_range[e1],NeutrinoCrossSections::electron,NeutrinoCrossSections::antineutrino,NeutrinoCrossSections::GR)*cm2;
         else
           int_struct->sigma_GR[e1] = gr_cs->TotalCrossSection(E_range[e1],NeutrinoCrossSections::electron,NeutrinoCrossSections::antineutrino,NeutrinoCrossSections::GR)*cm2;
+        validateCrossSection(int_struct->sigma_GR[e1],cm2,"GR",false,E_range[e1],0,NeutrinoCrossSections::electron);
         dsignudE_GR[e1][0] = gr_cs->SingleDifferentialCrossSection(E_range[e1],E_range[0],NeutrinoCrossSections::electron,NeutrinoCrossSections::antineutrino,NeutrinoCrossSections::GR)*cm2GeV;
-        for(unsigned int e2 = 1; e2 < e1; e2++)
+        validateCrossSection(dsignudE_GR[e1][0],cm2GeV,"GR",true,E_range[e1],E_range[0],NeutrinoCrossSections::electron);
+        for(unsigned int e2 = 1; e2 < e1; e2++){
           dsignudE_GR[e1][e2] = gr_cs->AverageSingleDifferentialCrossSection(E_range[e1],E_range[e2-1],E_range[e2],NeutrinoCrossSections::electron,NeutrinoCrossSections::antineutrino,NeutrinoCrossSections::GR)*cm2GeV;
+          validateCrossSection(dsignudE_GR[e1][e2],cm2GeV,"GR",true,E_range[e1],E_range[e2],NeutrinoCrossSections::electron);
+        }
       }
       for(unsigned int e1 = 0; e1 < ne; e1++){
         for(unsigned int e2 = 0; e2 < e1; e2++){
-          int_struct->dNdE_GR[e1][e2] = dsignudE_GR[e1][e2]/int_struct->sigma_GR[e1];
+          if(dsignudE_GR[e1][e2] == 0)
+            int_struct->dNdE_GR[e1][e2] = 0;
+          else {
+            int_struct->dNdE_GR[e1][e2] = dsignudE_GR[e1][e2]/int_struct->sigma_GR[e1];
+            validateCrossSection(int_struct->dNdE_GR[e1][e2],1.,"dNdE_GR",true,E_range[e1],E_range[e2],NeutrinoCrossSections::electron);
+          }
         }
       }
     }
-- 
2.43.0


From 91bb6225a640a7a2a0b779883fdaa4501aa6bc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:27 +0000
Subject: [PATCH 055/100] fix: a state can be read into an object already in
 use, and with a single energy node

---
 src/nuSQuIDS.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 4087251..e4858bd 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -98,6 +98,12 @@ void nuSQUIDS::init(double xini){
   Set_h_max(std::numeric_limits<double>::max() );
   positivization_scale = 300.0*params.km;
 
+  // the object may have been initialized with other contents before
+  Set_NonCoherentRhoTerms(false);
+  Set_OtherRhoTerms(false);
+  if(enable_neutrino_sources)
+    Set_NeutrinoSources(true);
+
   //===============================
   // set parameters to default   //
   //===============================
@@ -244,10 +250,11 @@ void nuSQUIDS::init(marray<double,1> E_vector, double xini){
 
   positivization_scale = 300.0*params.km;
 
-  if(iinteraction){
-    Set_NonCoherentRhoTerms(true);
-    Set_OtherRhoTerms(true);
-  }
+  // the object may have been initialized with other contents before
+  Set_NonCoherentRhoTerms(iinteraction);
+  Set_OtherRhoTerms(iinteraction);
+  if(enable_neutrino_sources)
+    Set_NeutrinoSources(true);
   
   //precompute this product for HI to avoid repeating expensive pow() calls.
   HI_constants = params.sqrt2*params.GF*params.Na*pow(params.cm,-3);
@@ -2195,9 +2202,8 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     E_range[ie] = energy_data[ie];
 
   // initializing nuSQUIDS
-  if (ne == 1){
-    if(not inusquids)
-      init(squids_time_initial);
+  if (ne == 1 and NT != both and not iinteraction){
+    init(squids_time_initial);
     Set_E(energy_data[0]);
   }
   else {
@@ -2267,6 +2273,8 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     }
   }
 
+  int_struct.reset();
+  interactions_initialized = false;
   if(iinteraction) {
     if ( iis == nullptr ){
       throw std::runtime_error("nuSQUIDS::ReadStateHDF5::No interaction structure provided.");
@@ -2404,9 +2412,8 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     E_range[ie] = energy_data[ie];
 
   // initializing nuSQUIDS
-  if (ne == 1){
-    if(not inusquids)
-      init(squids_time_initial);
+  if (ne == 1 and NT != both and not iinteraction){
+    init(squids_time_initial);
     Set_E(energy_data[0]);
   }
   else {
@@ -2475,6 +2482,8 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     }
   }
 
+  int_struct.reset();
+  interactions_initialized = false;
   if(iinteraction){
     // if intereactions will be used then reading cross section information
     H5Handle xs_grp;
-- 
2.43.0


From aef7e4e387e074ce721461ff79d4d9d8fcaccde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 056/100] fix: the Hamiltonian can be asked for before the
 first evolution

---
 src/nuSQuIDS.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index e4858bd..6c189e3 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1704,6 +1704,16 @@ void nuSQUIDS::SetIniFlavorProyectors(){
 squids::SU_vector nuSQUIDS::GetHamiltonian(unsigned int ei, unsigned int rho){
   if (!ienergy)
     throw std::runtime_error("nuSQUIDS::Error::Energy not initialized");
+  if (body == nullptr or not ibody)
+    throw std::runtime_error("nuSQUIDS::Error::Body not initialized");
+  if (track == nullptr or not itrack)
+    throw std::runtime_error("nuSQUIDS::Error::TRACK is not initialized");
+  if (ei >= ne or rho >= nrhos)
+    throw std::runtime_error("nuSQUIDS::Error::Invalid energy or density matrix index.");
+  if (iinteraction and not interactions_initialized)
+    InitializeInteractions();
+  if (iinteraction and not ioscillations)
+    SetUpInteractionCache();
   PreDerive(Get_t());
   if(basis == mass) // already includes the vacuum part
     return HI(ei,rho,Get_t());
-- 
2.43.0


From 8f63e62e9b0435e4f8a138b45d045e577a13f890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 057/100] fix: tables of sizes which need no padding are stored
 and used after reading

---
 src/nuSQuIDS.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 6c189e3..52e1efb 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1977,7 +1977,7 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
       H5Handle dsetDSigmaGR(H5Dcreate2(xs_group,"dNdEgr",H5T_NATIVE_DOUBLE,dspaceDSigmaGR,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT), H5Dclose, "create HDF5 dataset");
       
       //check the last dimension of the cross section arrays for padding
-      if(int_struct->dNdE_GR.extent(4)==ne){
+      if(int_struct->dNdE_CC.extent(4)==ne){
         //no padding, which makes writing easy; dataspaces are the same shape
         //write dNdE CC
         herr_t err=H5Dwrite(dsetDSigmaCC, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, &*int_struct->dNdE_CC.begin());
@@ -2724,13 +2724,14 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
       }
     }
 
-    nc_factors.resize(std::vector<size_t>{nrhos,3,ne});
+    size_t rounded_ne=round_up_to_aligned(ne);
+    nc_factors.resize(std::vector<size_t>{nrhos,3,rounded_ne});
     if(tauregeneration){
-      tau_hadlep_decays.resize(std::vector<size_t>{2,ne});
-      tau_lep_decays.resize(std::vector<size_t>{2,ne});
+      tau_hadlep_decays.resize(std::vector<size_t>{2,rounded_ne});
+      tau_lep_decays.resize(std::vector<size_t>{2,rounded_ne});
     }
     if(iglashow)
-      gr_factors.resize(std::vector<size_t>{ne});
+      gr_factors.resize(std::vector<size_t>{rounded_ne});
 
     interactions_initialized = true;
   }
-- 
2.43.0


From a3438e77565022fb5652b470245afcd48afb2c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 058/100] fix: a used object can be given tables of another
 size when oscillations are off

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 52e1efb..2e2bcd7 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -561,6 +561,8 @@ void nuSQUIDS::SetUpInteractionCache(){
   interaction_cache_store_size=headroom + nvectors*vector_size + (nvectors-1)*padding;
   //std::cout << "Allocating " << interaction_cache_store_size*sizeof(double) << " bytes" << std::endl;
   //std::cout << " space wasted achieving alignment: " << (headroom + (nvectors-1)*padding)*sizeof(double) << " bytes" << std::endl;
+  //let go of vectors which refer to previous storage before it is released
+  interaction_cache=marray<squids::SU_vector,2>();
   interaction_cache_store.reset(new double[interaction_cache_store_size]);
   
   interaction_cache.resize(std::initializer_list<size_t>{nrhos,ne});
-- 
2.43.0


From 60db879a2e80f3fb5637e569f2c54ba1e455477f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 059/100] fix: an attribute which holds several values is not
 read into a single one

---
 include/nuSQuIDS/tools.h | 21 ++++++++-------------
 src/tools.cpp            |  6 ++++++
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/nuSQuIDS/tools.h b/include/nuSQuIDS/tools.h
index 97007af..9adeeec 100644
--- a/include/nuSQuIDS/tools.h
+++ b/include/nuSQuIDS/tools.h
@@ -397,25 +397,20 @@ void addH5Attribute<std::string>(hid_t object, std::string name, const std::stri
 
 template<typename T>
 void readH5Attribute(hid_t object, std::string name, T& dest){
-    hid_t attribute_id=H5Aopen(object, name.c_str(), H5P_DEFAULT);
-    hid_t actualType=H5Aget_type(attribute_id);
+    H5Handle attribute_id(H5Aopen(object, name.c_str(), H5P_DEFAULT), H5Aclose, ("open attribute '"+name+"'").c_str());
+    H5Handle actualType(H5Aget_type(attribute_id), H5Tclose, ("get type of attribute '"+name+"'").c_str());
+    H5Handle dSpace(H5Aget_space(attribute_id), H5Sclose, ("get dataspace of attribute '"+name+"'").c_str());
     hid_t expectedType=h5Datatype<T>::type();
     
     //TODO: this may be too harsh; it ignores whether conversion is possible
-    if(H5Tequal(actualType, expectedType)<=0){
-        H5Aclose(attribute_id);
-        H5Tclose(actualType);
+    if(H5Tequal(actualType, expectedType)<=0)
         throw std::runtime_error("Expected and actual data types for attribute '"+name+"' do not match");
-    }
     
-    if(H5Aread(attribute_id, expectedType, &dest)<0){
-        H5Aclose(attribute_id);
-        H5Tclose(actualType);
-        throw std::runtime_error("Failed to read attribute '"+name+"'");
-    }
+    if(H5Sget_simple_extent_npoints(dSpace)!=1)
+        throw std::runtime_error("Attribute '"+name+"' does not hold a single value");
     
-    H5Aclose(attribute_id);
-    H5Tclose(actualType);
+    if(H5Aread(attribute_id, expectedType, &dest)<0)
+        throw std::runtime_error("Failed to read attribute '"+name+"'");
 }
 
 template<>
diff --git a/src/tools.cpp b/src/tools.cpp
index 2a97669..8701820 100644
--- a/src/tools.cpp
+++ b/src/tools.cpp
@@ -839,6 +839,7 @@ void readH5Attribute<std::string>(hid_t object, std::string name, std::string& d
     
     hid_t space = H5Aget_space(attribute_id);
     H5S_class_t spaceClass = (space<0 ? H5S_NO_CLASS : H5Sget_simple_extent_type(space));
+    hssize_t npoints = (space<0 ? -1 : H5Sget_simple_extent_npoints(space));
     if(space>=0)
         H5Sclose(space);
     if(spaceClass==H5S_NO_CLASS){
@@ -852,6 +853,11 @@ void readH5Attribute<std::string>(hid_t object, std::string name, std::string& d
         dest.clear();
         return;
     }
+    if(npoints!=1 || H5Tis_variable_str(actualType)!=0){
+        H5Aclose(attribute_id);
+        H5Tclose(actualType);
+        throw std::runtime_error("Attribute '"+name+"' does not hold a single string of fixed size");
+    }
     
     size_t size = H5Tget_size(actualType);
     dest.resize(size);
-- 
2.43.0


From e4b56f4382919f4b03677d9d4887a96425ae3d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 060/100] fix: bodies and tracks which could not be stored or
 restored completely are reported

---
 src/body.cpp | 138 +++++++++++++++++++++++----------------------------
 1 file changed, 63 insertions(+), 75 deletions(-)

diff --git a/src/body.cpp b/src/body.cpp
index 451ba33..a7896b3 100644
--- a/src/body.cpp
+++ b/src/body.cpp
@@ -40,6 +40,7 @@
 #include <SQuIDS/const.h>
 
 #include <nuSQuIDS/resources.h>
+#include <nuSQuIDS/tools.h>
 
 // Macros
 #define SQR(x)      ((x)*(x))                        // x^2
@@ -51,15 +52,7 @@ namespace {
 squids::Const param;
 
 void addStringAttribute(hid_t object, std::string name, std::string contents){
-  hid_t strtype = H5Tcopy(H5T_C_S1);
-  H5Tset_size(strtype, contents.size());
-  hsize_t dim=1;
-  hid_t dataspace_id = H5Screate_simple(1, &dim, NULL);
-  hid_t attribute_id = H5Acreate(object,name.c_str(),strtype,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-  H5Awrite(attribute_id, strtype, &contents[0]);
-  H5Aclose(attribute_id);
-  H5Sclose(dataspace_id);
-  H5Tclose(strtype);
+  addH5Attribute<std::string>(object,name,contents);
 }
 
 //not currently used
@@ -80,41 +73,46 @@ std::string readStringAttribute(hid_t object, std::string name){
 */
 
 void addDoubleAttribute(hid_t object, std::string name, double value){
-  hsize_t dim=1;
-  hid_t dataspace_id = H5Screate_simple(1, &dim, NULL);
-  hid_t attribute_id = H5Acreate(object,name.c_str(),H5T_IEEE_F64LE,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-  H5Awrite(attribute_id, H5T_IEEE_F64LE, &value);
-  H5Aclose(attribute_id);
-  H5Sclose(dataspace_id);
+  addH5Attribute<double>(object,name,value);
+}
+
+//Unlike readH5Attribute, this converts the stored value to the requested type.
+template<typename T>
+T readNumericAttribute(hid_t object, const std::string& name){
+  T target;
+  H5Handle attribute_id(H5Aopen(object,name.c_str(),H5P_DEFAULT), H5Aclose, ("open attribute '"+name+"'").c_str());
+  H5Handle dataspace_id(H5Aget_space(attribute_id), H5Sclose, ("get dataspace of attribute '"+name+"'").c_str());
+  if(H5Sget_simple_extent_npoints(dataspace_id)!=1)
+    throw std::runtime_error("Attribute '"+name+"' does not hold a single value");
+  if(H5Aread(attribute_id, h5Datatype<T>::type(), &target)<0)
+    throw std::runtime_error("Failed to read attribute '"+name+"'");
+  return target;
 }
 
 double readDoubleAttribute(hid_t object, std::string name){
-  double target;
-  hid_t attribute_id = H5Aopen(object,name.c_str(),H5P_DEFAULT);
-  herr_t status = H5Aread(attribute_id, H5T_NATIVE_DOUBLE, &target);
-  if(status<0)
-    throw std::runtime_error("Failed to read attribute '"+name+"'");
-  H5Aclose(attribute_id);
-  return target;
+  return readNumericAttribute<double>(object,name);
 }
 
 void addUIntAttribute(hid_t object, std::string name, unsigned int value){
-  hsize_t dim=1;
-  hid_t dataspace_id = H5Screate_simple(1, &dim, NULL);
-  hid_t attribute_id = H5Acreate(object,name.c_str(),H5T_NATIVE_UINT,dataspace_id,H5P_DEFAULT,H5P_DEFAULT);
-  H5Awrite(attribute_id, H5T_NATIVE_UINT, &value);
-  H5Aclose(attribute_id);
-  H5Sclose(dataspace_id);
+  addH5Attribute<unsigned int>(object,name,value);
 }
 
 unsigned int readUIntAttribute(hid_t object, std::string name){
-  unsigned int target;
-  hid_t attribute_id = H5Aopen(object,name.c_str(),H5P_DEFAULT);
-  herr_t status = H5Aread(attribute_id, H5T_NATIVE_UINT, &target);
-  if(status<0)
-    throw std::runtime_error("Failed to read attribute '"+name+"'");
-  H5Aclose(attribute_id);
-  return target;
+  return readNumericAttribute<unsigned int>(object,name);
+}
+
+void addDoubleArray(hid_t object, const std::string& name, const std::vector<double>& contents){
+  hsize_t dim=contents.size();
+  if(H5LTmake_dataset_double(object, name.c_str(), 1, &dim, contents.data())<0)
+    throw std::runtime_error("Failed to write dataset '"+name+"'");
+}
+
+std::vector<double> readDoubleArray(hid_t object, const std::string& name, unsigned int size){
+  marray<double,1> data;
+  readArrayH5(object,name,data);
+  if(data.size()!=size)
+    throw std::runtime_error("Dataset '"+name+"' does not have the expected size");
+  return std::vector<double>(data.begin(),data.end());
 }
 
 } // close unnamed namespace
@@ -241,18 +239,16 @@ inter_density(x_arr,density_arr),inter_ye(x_arr,ye_arr)
 void VariableDensity::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "x_arr", 1, dims.data(), x_arr.data());
-  H5LTmake_dataset_double(group, "density_arr", 1, dims.data(), density_arr.data());
-  H5LTmake_dataset_double(group, "ye_arr", 1, dims.data(), ye_arr.data());
+  addDoubleArray(group, "x_arr", x_arr);
+  addDoubleArray(group, "density_arr", density_arr);
+  addDoubleArray(group, "ye_arr", ye_arr);
 }
 
 std::shared_ptr<VariableDensity> VariableDensity::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
-  std::vector<double> x_vec(asize),rho_vec(asize),ye_vec(asize);
-  H5LTread_dataset_double(group,"x_arr",x_vec.data());
-  H5LTread_dataset_double(group,"density_arr",rho_vec.data());
-  H5LTread_dataset_double(group,"ye_arr",ye_vec.data());
+  std::vector<double> x_vec=readDoubleArray(group,"x_arr",asize);
+  std::vector<double> rho_vec=readDoubleArray(group,"density_arr",asize);
+  std::vector<double> ye_vec=readDoubleArray(group,"ye_arr",asize);
   return std::make_shared<VariableDensity>(x_vec,rho_vec,ye_vec);
 }
 
@@ -353,18 +349,16 @@ inter_density(earth_radius,earth_density),inter_ye(earth_radius,earth_ye)
 void Earth::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "earth_radius", 1, dims.data(), earth_radius.data());
-  H5LTmake_dataset_double(group, "earth_density", 1, dims.data(), earth_density.data());
-  H5LTmake_dataset_double(group, "earth_ye", 1, dims.data(), earth_ye.data());
+  addDoubleArray(group, "earth_radius", earth_radius);
+  addDoubleArray(group, "earth_density", earth_density);
+  addDoubleArray(group, "earth_ye", earth_ye);
 }
 
 std::shared_ptr<Earth> Earth::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
-  std::vector<double> x_vec(asize),rho_vec(asize),ye_vec(asize);
-  H5LTread_dataset_double(group,"earth_radius",x_vec.data());
-  H5LTread_dataset_double(group,"earth_density",rho_vec.data());
-  H5LTread_dataset_double(group,"earth_ye",ye_vec.data());
+  std::vector<double> x_vec=readDoubleArray(group,"earth_radius",asize);
+  std::vector<double> rho_vec=readDoubleArray(group,"earth_density",asize);
+  std::vector<double> ye_vec=readDoubleArray(group,"earth_ye",asize);
   return std::make_shared<Earth>(x_vec,rho_vec,ye_vec);
 }
 
@@ -482,17 +476,15 @@ inter_density(sun_radius,sun_density),inter_xh(sun_radius,sun_xh)
 void Sun::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "sun_radius", 1, dims.data(), sun_radius.data());
-  H5LTmake_dataset_double(group, "sun_density", 1, dims.data(), sun_density.data());
-  H5LTmake_dataset_double(group, "sun_xh", 1, dims.data(), sun_xh.data());
+  addDoubleArray(group, "sun_radius", sun_radius);
+  addDoubleArray(group, "sun_density", sun_density);
+  addDoubleArray(group, "sun_xh", sun_xh);
 }
 std::shared_ptr<Sun> Sun::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
-  std::vector<double> x_vec(asize),rho_vec(asize),xh_vec(asize);
-  H5LTread_dataset_double(group,"sun_radius",x_vec.data());
-  H5LTread_dataset_double(group,"sun_density",rho_vec.data());
-  H5LTread_dataset_double(group,"sun_xh",xh_vec.data());
+  std::vector<double> x_vec=readDoubleArray(group,"sun_radius",asize);
+  std::vector<double> rho_vec=readDoubleArray(group,"sun_density",asize);
+  std::vector<double> xh_vec=readDoubleArray(group,"sun_xh",asize);
   return std::make_shared<Sun>(x_vec,rho_vec,xh_vec);
 }
 
@@ -614,18 +606,16 @@ std::shared_ptr<SunASnu::Track> SunASnu::Track::Deserialize(hid_t group){
 void SunASnu::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "sun_radius", 1, dims.data(), sun_radius.data());
-  H5LTmake_dataset_double(group, "sun_density", 1, dims.data(), sun_density.data());
-  H5LTmake_dataset_double(group, "sun_xh", 1, dims.data(), sun_xh.data());
+  addDoubleArray(group, "sun_radius", sun_radius);
+  addDoubleArray(group, "sun_density", sun_density);
+  addDoubleArray(group, "sun_xh", sun_xh);
 }
 
 std::shared_ptr<SunASnu> SunASnu::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
-  std::vector<double> x_vec(asize),rho_vec(asize),xh_vec(asize);
-  H5LTread_dataset_double(group,"sun_radius",x_vec.data());
-  H5LTread_dataset_double(group,"sun_density",rho_vec.data());
-  H5LTread_dataset_double(group,"sun_xh",xh_vec.data());
+  std::vector<double> x_vec=readDoubleArray(group,"sun_radius",asize);
+  std::vector<double> rho_vec=readDoubleArray(group,"sun_density",asize);
+  std::vector<double> xh_vec=readDoubleArray(group,"sun_xh",asize);
   return std::make_shared<SunASnu>(x_vec,rho_vec,xh_vec);
 }
 
@@ -745,20 +735,18 @@ std::shared_ptr<EarthAtm::Track> EarthAtm::Track::Deserialize(hid_t group){
 void EarthAtm::Serialize(hid_t group) const {
   addStringAttribute(group,"name", GetName().c_str());
   addUIntAttribute(group,"arraysize",arraysize);
-  std::vector<hsize_t> dims {arraysize};
-  H5LTmake_dataset_double(group, "earth_radius", 1, dims.data(), earth_radius.data());
-  H5LTmake_dataset_double(group, "earth_density", 1, dims.data(), earth_density.data());
-  H5LTmake_dataset_double(group, "earth_ye", 1, dims.data(), earth_ye.data());
+  addDoubleArray(group, "earth_radius", earth_radius);
+  addDoubleArray(group, "earth_density", earth_density);
+  addDoubleArray(group, "earth_ye", earth_ye);
   addH5Attribute(group,"radius",radius);
   addH5Attribute(group,"atm_height",atm_height);
 }
 
 std::shared_ptr<EarthAtm> EarthAtm::Deserialize(hid_t group){
   unsigned int asize=readUIntAttribute(group,"arraysize");
-  std::vector<double> x_vec(asize),rho_vec(asize),ye_vec(asize);
-  H5LTread_dataset_double(group,"earth_radius",x_vec.data());
-  H5LTread_dataset_double(group,"earth_density",rho_vec.data());
-  H5LTread_dataset_double(group,"earth_ye",ye_vec.data());
+  std::vector<double> x_vec=readDoubleArray(group,"earth_radius",asize);
+  std::vector<double> rho_vec=readDoubleArray(group,"earth_density",asize);
+  std::vector<double> ye_vec=readDoubleArray(group,"earth_ye",asize);
   // these parameters were originally not serialized, so give them default values equal to what
   // was originally hard-coded
   double radius = 6371.0;
-- 
2.43.0


From b3d180c7b18b1622291653d6c496ee6c4eb827c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 061/100] fix: a state which could not be stored completely is
 reported, and does not replace a file it should be added to

---
 src/nuSQuIDS.cpp | 66 +++++++++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 2e2bcd7..5ecb3ec 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -72,6 +72,12 @@ std::string getStringAttribute(hid_t loc_id, const char* obj_name, const char* a
   return(std::string(buffer.get(),type_size));
 }
 
+///Throw if an HDF5 operation did not succeed
+void requireH5(herr_t err, const std::string& action){
+  if(err<0)
+    throw std::runtime_error("nuSQUIDS::Error::Failed to "+action);
+}
+
 } // close unnamed namespace
 
 void nuSQUIDS::init(double xini){
@@ -1751,7 +1757,8 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
               H5Fopen(str.c_str(), H5F_ACC_RDWR, H5P_DEFAULT));
 
   if (file < 0) {// file could not be open. Create a new file.
-    file=H5File(H5Fcreate(str.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT));
+    // but never replace one which should not be overwritten
+    file=H5File(H5Fcreate(str.c_str(), overwrite ? H5F_ACC_TRUNC : H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT));
     if (file < 0)
         throw std::runtime_error("nuSQUIDS: Error: Cannot create file at " + str + ".");
   }
@@ -1770,56 +1777,56 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
 
   // write the energy range
   hsize_t Edims[1]={E_range.extent(0)};
-  H5LTmake_dataset(group,"energies",1,Edims,H5T_NATIVE_DOUBLE,E_range.get_data());
+  requireH5(H5LTmake_dataset(group,"energies",1,Edims,H5T_NATIVE_DOUBLE,E_range.get_data()),"write energies");
 
   // write mixing parameters
   hsize_t dim[1]{1};
-  H5LTmake_dataset(group,"basic",1,dim,H5T_NATIVE_DOUBLE,nullptr);
-  H5LTmake_dataset(group,"mixingangles",1,dim,H5T_NATIVE_DOUBLE,nullptr);
-  H5LTmake_dataset(group,"CPphases",1,dim,H5T_NATIVE_DOUBLE,nullptr);
-  H5LTmake_dataset(group,"massdifferences",1,dim,H5T_NATIVE_DOUBLE,nullptr);
+  requireH5(H5LTmake_dataset(group,"basic",1,dim,H5T_NATIVE_DOUBLE,nullptr),"write basic");
+  requireH5(H5LTmake_dataset(group,"mixingangles",1,dim,H5T_NATIVE_DOUBLE,nullptr),"write mixingangles");
+  requireH5(H5LTmake_dataset(group,"CPphases",1,dim,H5T_NATIVE_DOUBLE,nullptr),"write CPphases");
+  requireH5(H5LTmake_dataset(group,"massdifferences",1,dim,H5T_NATIVE_DOUBLE,nullptr),"write massdifferences");
 
-  H5LTset_attribute_int(group, "basic","numneu",(const int*)&numneu, 1);
+  requireH5(H5LTset_attribute_int(group, "basic","numneu",(const int*)&numneu, 1),"write basic");
   int auxint = static_cast<int>(NT);
-  H5LTset_attribute_int(group, "basic","NT",&auxint,1);
-  H5LTset_attribute_string(group, "basic", "interactions", (iinteraction) ? "True":"False");
+  requireH5(H5LTset_attribute_int(group, "basic","NT",&auxint,1),"write basic");
+  requireH5(H5LTset_attribute_string(group, "basic", "interactions", (iinteraction) ? "True":"False"),"write basic");
   auxint = static_cast<int>(ioscillations);
-  H5LTset_attribute_int(group, "basic", "oscillations", &auxint, 1);
+  requireH5(H5LTset_attribute_int(group, "basic", "oscillations", &auxint, 1),"write basic");
   auxint = static_cast<int>(tauregeneration);
-  H5LTset_attribute_int(group, "basic", "tau_regeneration", &auxint, 1);
+  requireH5(H5LTset_attribute_int(group, "basic", "tau_regeneration", &auxint, 1),"write basic");
   auxint = static_cast<int>(iglashow);
-  H5LTset_attribute_int(group, "basic", "glashow_resonance", &auxint, 1);
+  requireH5(H5LTset_attribute_int(group, "basic", "glashow_resonance", &auxint, 1),"write basic");
   double auxt = Get_t();
-  H5LTset_attribute_double(group, "basic", "squids_time", &auxt,1);
+  requireH5(H5LTset_attribute_double(group, "basic", "squids_time", &auxt,1),"write basic");
   double auxt_ini = Get_t_initial();
-  H5LTset_attribute_double(group, "basic", "squids_time_initial", &auxt_ini,1);
+  requireH5(H5LTset_attribute_double(group, "basic", "squids_time_initial", &auxt_ini,1),"write basic");
 
   // version numbers
-  H5LTset_attribute_string(group, "basic", "squids_version", SQUIDS_VERSION_STR);
+  requireH5(H5LTset_attribute_string(group, "basic", "squids_version", SQUIDS_VERSION_STR),"write basic");
   unsigned int squids_version = SQUIDS_VERSION;
-  H5LTset_attribute_uint(group, "basic", "squids_version_number", &squids_version,1);
+  requireH5(H5LTset_attribute_uint(group, "basic", "squids_version_number", &squids_version,1),"write basic");
 
-  H5LTset_attribute_string(group, "basic", "nusquids_version", NUSQUIDS_VERSION_STR);
+  requireH5(H5LTset_attribute_string(group, "basic", "nusquids_version", NUSQUIDS_VERSION_STR),"write basic");
   unsigned int nusquids_version = NUSQUIDS_VERSION;
-  H5LTset_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version,1);
+  requireH5(H5LTset_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version,1),"write basic");
 
   // set mixing angles
   for( unsigned int i = 0; i < numneu; i++ ){
     for( unsigned int j = i+1; j < numneu; j++ ){
       std::string th_label = "th"+std::to_string(i+1)+std::to_string(j+1);
       double th_value = params.GetMixingAngle(i,j);
-      H5LTset_attribute_double(group, "mixingangles",th_label.c_str(),&th_value, 1);
+      requireH5(H5LTset_attribute_double(group, "mixingangles",th_label.c_str(),&th_value, 1),"write mixingangles");
 
       std::string delta_label = "delta"+std::to_string(i+1)+std::to_string(j+1);
       double delta_value = params.GetPhase(i,j);
-      H5LTset_attribute_double(group, "CPphases",delta_label.c_str(),&delta_value, 1);
+      requireH5(H5LTset_attribute_double(group, "CPphases",delta_label.c_str(),&delta_value, 1),"write CPphases");
     }
   }
 
   for ( unsigned int i = 1; i < numneu; i++ ){
     std::string dm2_label = "dm"+std::to_string(i+1)+"1sq";
     double dm2_value = params.GetEnergyDifference(i);
-    H5LTset_attribute_double(group, "massdifferences",dm2_label.c_str(),&dm2_value, 1);
+    requireH5(H5LTset_attribute_double(group, "massdifferences",dm2_label.c_str(),&dm2_value, 1),"write massdifferences");
   }
 
   //writing state
@@ -1844,17 +1851,15 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
     }
   }
 
-  H5LTmake_dataset(group,"neustate",2,statedim,H5T_NATIVE_DOUBLE,static_cast<const void*>(neustate.data()));
-  H5LTmake_dataset(group,"aneustate",2,statedim,H5T_NATIVE_DOUBLE,static_cast<const void*>(aneustate.data()));
+  requireH5(H5LTmake_dataset(group,"neustate",2,statedim,H5T_NATIVE_DOUBLE,static_cast<const void*>(neustate.data())),"write neustate");
+  requireH5(H5LTmake_dataset(group,"aneustate",2,statedim,H5T_NATIVE_DOUBLE,static_cast<const void*>(aneustate.data())),"write aneustate");
 
   // writing body and track information
-  hid_t track_group_id = H5Gcreate(group, "track", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
-  track->Serialize(track_group_id);
-  H5Gclose(track_group_id);
+  H5Handle track_group(H5Gcreate(group, "track", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create HDF5 track group");
+  track->Serialize(track_group);
 
-  hid_t body_group_id = H5Gcreate(group, "body", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
-  body->Serialize(body_group_id);
-  H5Gclose(body_group_id);
+  H5Handle body_group(H5Gcreate(group, "body", H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT),H5Gclose,"create HDF5 body group");
+  body->Serialize(body_group);
 
   // writing cross section information
   H5Handle xs_group;
@@ -2102,6 +2107,9 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
   //H5Eset_auto (H5E_DEFAULT,(H5E_auto_t) H5Eprint,stderr);
   AddToWriteHDF5(user_parameters);
   //H5Eset_auto (H5E_DEFAULT,nullptr,nullptr);
+
+  // make sure that everything arrives in the file, while failure can still be reported
+  requireH5(H5Fflush(file,H5F_SCOPE_GLOBAL),"write to file "+str);
 }
 
 void nuSQUIDS::AddToWriteHDF5(hid_t hdf5_loc_id) const {
-- 
2.43.0


From 5f12adbb7419bc0e2064bf12cdc881d97fe542f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:06 +0000
Subject: [PATCH 062/100] fix: incomplete or inconsistent stored states are
 refused, and leave an object which cannot be used

---
 src/nuSQuIDS.cpp | 284 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 198 insertions(+), 86 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 5ecb3ec..7adfd14 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -55,14 +55,16 @@ std::string getStringAttribute(hid_t loc_id, const char* obj_name, const char* a
   err=H5LTget_attribute_ndims(loc_id,obj_name,attr_name,&rank);
   if(err<0)
     throw std::runtime_error("Failed to get dimensionality of attribute " + std::string(attr_name)+" of object "+std::string(obj_name));
-  if(rank!=1)
+  if(rank!=0 and rank!=1)
     throw std::runtime_error("Attribute "+std::string(attr_name) +" of object "+std::string(obj_name)+" is not one-dimensional");
-  hsize_t dims;
+  hsize_t dims=1;
   H5T_class_t type_class;
   size_t type_size;
   err=H5LTget_attribute_info(loc_id,obj_name,attr_name,&dims,&type_class,&type_size);
   if(err<0)
     throw std::runtime_error("Failed to get info on attribute "+std::string(attr_name)+" of object "+std::string(obj_name));
+  if(dims!=1 or type_class!=H5T_STRING)
+    throw std::runtime_error("Attribute "+std::string(attr_name) +" of object "+std::string(obj_name)+" is not a single string");
   std::unique_ptr<char[]> buffer(new char[type_size+1]);
   if(!buffer)
     throw std::runtime_error("Failed to allocate space to read string atribute");
@@ -78,6 +80,41 @@ void requireH5(herr_t err, const std::string& action){
     throw std::runtime_error("nuSQUIDS::Error::Failed to "+action);
 }
 
+///Throw if an attribute does not hold exactly one value
+void requireSingleValue(hid_t loc_id, const char* obj_name, const char* attr_name){
+  H5Handle attribute(H5Aopen_by_name(loc_id,obj_name,attr_name,H5P_DEFAULT,H5P_DEFAULT),H5Aclose,
+                     (std::string("open attribute ")+attr_name).c_str());
+  H5Handle space(H5Aget_space(attribute),H5Sclose,(std::string("get dataspace of attribute ")+attr_name).c_str());
+  if(H5Sget_simple_extent_npoints(space)!=1)
+    throw std::runtime_error(std::string("nuSQUIDS::Error::Attribute ")+attr_name+" does not hold a single value");
+}
+
+///Check whether an optional attribute is present, and if it is that it holds one value
+bool hasAttribute(hid_t loc_id, const char* obj_name, const char* attr_name){
+  htri_t exists=H5Aexists_by_name(loc_id,obj_name,attr_name,H5P_DEFAULT);
+  requireH5(exists,std::string("check for attribute ")+attr_name);
+  if(exists)
+    requireSingleValue(loc_id,obj_name,attr_name);
+  return exists;
+}
+
+///Get the size of a dataset, which must have a particular number of dimensions
+void getDatasetExtents(hid_t loc_id, const char* name, int rank, hsize_t* extents){
+  int actual_rank;
+  requireH5(H5LTget_dataset_ndims(loc_id,name,&actual_rank),std::string("get rank of ")+name);
+  if(actual_rank!=rank)
+    throw std::runtime_error(std::string("nuSQUIDS::Error::Dataset ")+name+" does not have the expected rank");
+  requireH5(H5LTget_dataset_info(loc_id,name,extents,nullptr,nullptr),std::string("get size of ")+name);
+}
+
+///Throw if a dataset does not have a particular size
+void requireDatasetExtents(hid_t loc_id, const char* name, const std::vector<hsize_t>& expected){
+  std::vector<hsize_t> extents(expected.size());
+  getDatasetExtents(loc_id,name,expected.size(),extents.data());
+  if(extents!=expected)
+    throw std::runtime_error(std::string("nuSQUIDS::Error::Dataset ")+name+" does not have the expected size");
+}
+
 } // close unnamed namespace
 
 void nuSQUIDS::init(double xini){
@@ -155,6 +192,8 @@ void nuSQUIDS::init(double xini){
 void nuSQUIDS::Set_E(double Enu){
   if( ne != 1 )
     throw std::runtime_error("nuSQUIDS::Error:Can only use Set_E in single energy mode.");
+  if( not inusquids )
+    throw std::runtime_error("nuSQUIDS::Error::nuSQUIDS not initialized.");
   E_range = marray<double,1>{1};
   E_range[0] = Enu;
   Set_xrange(std::vector<double>{Enu});
@@ -2135,45 +2174,64 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   if ( group < 0 )
       throw std::runtime_error("nuSQUIDS::Error::Group '" + grp + "' does not exist in HDF5.");
 
+  // until everything has been read the object cannot be used
+  inusquids = false;
+  istate = false;
+  ienergy = false;
+  itrack = false;
+  ibody = false;
+  interactions_initialized = false;
+  int_struct.reset();
+
   // read number of neutrinos
-  H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu));
+  requireSingleValue(group,"basic","numneu");
+  requireH5(H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu)),"read numneu");
   // neutrino/antineutrino/both
   int auxint;
-  char auxchar[20];
-  herr_t err;
-  H5LTget_attribute_int(group, "basic", "NT", &auxint);
+  requireSingleValue(group,"basic","NT");
+  requireH5(H5LTget_attribute_int(group, "basic", "NT", &auxint),"read NT");
   NT = static_cast<NeutrinoType>(auxint);
   // interactions
-  H5LTget_attribute_string(group,"basic","interactions", auxchar);
-  std::string aux = auxchar;
+  // (the length of the string may include its terminator)
+  std::string aux = getStringAttribute(group,"basic","interactions").c_str();
   if ( aux == "True")
     iinteraction = true;
   else
     iinteraction = false;
 
-  err=H5LTget_attribute_int(group, "basic", "oscillations", &auxint);
-  if(err>=0) ioscillations=auxint;
-  err=H5LTget_attribute_int(group, "basic", "tau_regeneration", &auxint);
-  if(err>=0) tauregeneration=auxint;
-  err=H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint);
-  if(err>=0) iglashow=auxint;
+  if(hasAttribute(group,"basic","oscillations")){
+    requireH5(H5LTget_attribute_int(group, "basic", "oscillations", &auxint),"read oscillations");
+    ioscillations=auxint;
+  }
+  if(hasAttribute(group,"basic","tau_regeneration")){
+    requireH5(H5LTget_attribute_int(group, "basic", "tau_regeneration", &auxint),"read tau_regeneration");
+    tauregeneration=auxint;
+  }
+  if(hasAttribute(group,"basic","glashow_resonance")){
+    requireH5(H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint),"read glashow_resonance");
+    iglashow=auxint;
+  }
 
   double squids_time;
-  H5LTget_attribute_double(group, "basic", "squids_time", &squids_time);
+  requireSingleValue(group,"basic","squids_time");
+  requireH5(H5LTget_attribute_double(group, "basic", "squids_time", &squids_time),"read squids_time");
 
   double squids_time_initial;
-  H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial);
+  requireSingleValue(group,"basic","squids_time_initial");
+  requireH5(H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial),"read squids_time_initial");
 
   // check version numbers
   unsigned int squids_version;
-  H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version);
+  requireSingleValue(group,"basic","squids_version_number");
+  requireH5(H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version),"read squids_version_number");
 
   if ( squids_version > SQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using SQuIDS version " +
         std::to_string(squids_version) + " current version is " + std::to_string(SQUIDS_VERSION));
 
   unsigned int nusquids_version;
-  H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version);
+  requireSingleValue(group,"basic","nusquids_version_number");
+  requireH5(H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version),"read nusquids_version_number");
   if ( nusquids_version > NUSQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using nuSQuIDS version " +
         std::to_string(nusquids_version) + " current version is " + std::to_string(NUSQUIDS_VERSION));
@@ -2190,33 +2248,37 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   } else {
     unsigned int body_id;
     hsize_t dimbody[1];
-    H5LTget_attribute_uint(group,"body","ID",&body_id);
+    requireSingleValue(group,"body","ID");
+    requireH5(H5LTget_attribute_uint(group,"body","ID",&body_id),"read body ID");
 
-    H5LTget_dataset_info(group,"body", dimbody,nullptr,nullptr);
-    double body_params[dimbody[0]];
-    H5LTread_dataset_double(group,"body", body_params);
+    getDatasetExtents(group,"body",1,dimbody);
+    std::unique_ptr<double[]> body_params(new double[dimbody[0]]);
+    requireH5(H5LTread_dataset_double(group,"body", body_params.get()),"read body");
 
     hsize_t dimtrack[1];
-    H5LTget_dataset_info(group,"track", dimtrack ,nullptr,nullptr);
+    getDatasetExtents(group,"track",1,dimtrack);
     std::unique_ptr<double[]> track_params(new double[dimtrack[0]]);
-    H5LTread_dataset_double(group,"track", track_params.get());
+    requireH5(H5LTread_dataset_double(group,"track", track_params.get()),"read track");
 
     double x_current;
-    H5LTget_attribute_double(group,"track","X",&x_current);
+    requireSingleValue(group,"track","X");
+    requireH5(H5LTget_attribute_double(group,"track","X",&x_current),"read track position");
 
     // setting body and track
-    SetBodyTrack(body_id,dimbody[0],body_params,dimtrack[0],track_params.get());
+    SetBodyTrack(body_id,dimbody[0],body_params.get(),dimtrack[0],track_params.get());
     // set trayectory to current time
     track->SetX(x_current);
   }
 
   // reading energy
   hsize_t dims[2];
-  H5LTget_dataset_info(group, "energies", dims, nullptr, nullptr);
+  getDatasetExtents(group, "energies", 1, dims);
+  if (dims[0]==0 or dims[0]>std::numeric_limits<unsigned int>::max())
+    throw std::runtime_error("nuSQUIDS::Error::Invalid number of energies.");
 
   ne = static_cast<unsigned int>(dims[0]);
   std::unique_ptr<double[]> energy_data(new double[ne]);
-  H5LTread_dataset_double(group, "energies", energy_data.get());
+  requireH5(H5LTread_dataset_double(group, "energies", energy_data.get()),"read energies");
   E_range = marray<double,1>{ne};
   for (unsigned int ie = 0; ie < ne; ie++)
     E_range[ie] = energy_data[ie];
@@ -2236,12 +2298,14 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     for( unsigned int j = i+1; j < numneu; j++ ){
       double th_value;
       std::string th_label = "th"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value);
+      requireSingleValue(group,"mixingangles",th_label.c_str());
+      requireH5(H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value),"read "+th_label);
       Set_MixingAngle(i,j,th_value);
 
       double delta_value;
       std::string delta_label = "delta"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value);
+      requireSingleValue(group,"CPphases",delta_label.c_str());
+      requireH5(H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value),"read "+delta_label);
       Set_CPPhase(i,j,delta_value);
     }
   }
@@ -2249,7 +2313,8 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   for( unsigned int i = 1; i < numneu; i++ ){
     double dm2_value;
     std::string dm2_label = "dm"+std::to_string(i+1)+"1sq";
-    H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value);
+    requireSingleValue(group,"massdifferences",dm2_label.c_str());
+    requireH5(H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value),"read "+dm2_label);
     Set_SquareMassDifference(i, dm2_value);
   }
 
@@ -2272,13 +2337,17 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   EvolveProjectors(squids_time);
 
   // reading state
-  H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr);
+  getDatasetExtents(group,"neustate",2,dims);
+  if (dims[0]!=ne or dims[1]!=numneu*numneu)
+    throw std::runtime_error("nuSQUIDS::Error::Size of stored state does not match the number of energies and neutrinos.");
   std::unique_ptr<double[]> neudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"neustate", neudata.get());
+  requireH5(H5LTread_dataset_double(group,"neustate", neudata.get()),"read neustate");
 
-  H5LTget_dataset_info(group,"aneustate", dims,nullptr,nullptr);
+  getDatasetExtents(group,"aneustate",2,dims);
+  if (dims[0]!=ne or dims[1]!=numneu*numneu)
+    throw std::runtime_error("nuSQUIDS::Error::Size of stored state does not match the number of energies and neutrinos.");
   std::unique_ptr<double[]> aneudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"aneustate", aneudata.get());
+  requireH5(H5LTread_dataset_double(group,"aneustate", aneudata.get()),"read aneustate");
 
   for(unsigned int ie = 0; ie < dims[0]; ie++){
     for (unsigned int j = 0; j < dims[1]; j ++){
@@ -2293,12 +2362,12 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     }
   }
 
-  int_struct.reset();
-  interactions_initialized = false;
   if(iinteraction) {
     if ( iis == nullptr ){
       throw std::runtime_error("nuSQUIDS::ReadStateHDF5::No interaction structure provided.");
     } else {
+      if(iis->sigma_CC.extent(1)!=nrhos or iis->sigma_CC.extent(2)!=numneu or iis->sigma_CC.extent(3)!=round_up_to_aligned(ne))
+        throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Interaction structure does not match the stored state.");
       int_struct = iis;
       size_t rounded_ne=round_up_to_aligned(ne);
       nc_factors.resize(std::vector<size_t>{nrhos,3,rounded_ne});
@@ -2313,13 +2382,13 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   }
 
   // read from user parameters
-  hid_t user_parameters_id = H5Gopen(group, "user_parameters", H5P_DEFAULT);
+  H5Handle user_parameters(H5Gopen(group, "user_parameters", H5P_DEFAULT),H5Gclose,"open HDF5 group");
   //H5Eset_auto (H5E_DEFAULT,(H5E_auto_t) H5Eprint,stderr);
-  AddToReadHDF5(user_parameters_id);
+  AddToReadHDF5(user_parameters);
   //H5Eset_auto (H5E_DEFAULT,nullptr,nullptr);
-  H5Gclose(user_parameters_id);
 
   // we assume that this was created with the writer and got to this point!
+  inusquids = true;
   istate = true;
   ienergy = true;
   itrack = true;
@@ -2344,45 +2413,64 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   if( group < 0 )
       throw std::runtime_error("nuSQUIDS::Error::Group '" + grp + "' does not exist in HDF5.");
 
+  // until everything has been read the object cannot be used
+  inusquids = false;
+  istate = false;
+  ienergy = false;
+  itrack = false;
+  ibody = false;
+  interactions_initialized = false;
+  int_struct.reset();
+
   // read number of neutrinos
-  H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu));
+  requireSingleValue(group,"basic","numneu");
+  requireH5(H5LTget_attribute_uint(group, "basic", "numneu", static_cast<unsigned int*>(&numneu)),"read numneu");
   // neutrino/antineutrino/both
   int auxint;
-  char auxchar[20];
-  herr_t err;
-  H5LTget_attribute_int(group, "basic", "NT", &auxint);
+  requireSingleValue(group,"basic","NT");
+  requireH5(H5LTget_attribute_int(group, "basic", "NT", &auxint),"read NT");
   NT = static_cast<NeutrinoType>(auxint);
   // interactions
-  H5LTget_attribute_string(group,"basic","interactions", auxchar);
-  std::string aux = auxchar;
+  // (the length of the string may include its terminator)
+  std::string aux = getStringAttribute(group,"basic","interactions").c_str();
   if ( aux == "True")
     iinteraction = true;
   else
     iinteraction = false;
   
-  err=H5LTget_attribute_int(group, "basic", "oscillations", &auxint);
-  if(err>=0) ioscillations=auxint;
-  err=H5LTget_attribute_int(group, "basic", "tau_regeneration", &auxint);
-  if(err>=0) tauregeneration=auxint;
-  err=H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint);
-  if(err>=0) iglashow=auxint;
+  if(hasAttribute(group,"basic","oscillations")){
+    requireH5(H5LTget_attribute_int(group, "basic", "oscillations", &auxint),"read oscillations");
+    ioscillations=auxint;
+  }
+  if(hasAttribute(group,"basic","tau_regeneration")){
+    requireH5(H5LTget_attribute_int(group, "basic", "tau_regeneration", &auxint),"read tau_regeneration");
+    tauregeneration=auxint;
+  }
+  if(hasAttribute(group,"basic","glashow_resonance")){
+    requireH5(H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint),"read glashow_resonance");
+    iglashow=auxint;
+  }
 
   double squids_time;
-  H5LTget_attribute_double(group, "basic", "squids_time", &squids_time);
+  requireSingleValue(group,"basic","squids_time");
+  requireH5(H5LTget_attribute_double(group, "basic", "squids_time", &squids_time),"read squids_time");
 
   double squids_time_initial;
-  H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial);
+  requireSingleValue(group,"basic","squids_time_initial");
+  requireH5(H5LTget_attribute_double(group, "basic", "squids_time_initial", &squids_time_initial),"read squids_time_initial");
 
   // check version numbers
   unsigned int squids_version;
-  H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version);
+  requireSingleValue(group,"basic","squids_version_number");
+  requireH5(H5LTget_attribute_uint(group, "basic", "squids_version_number", &squids_version),"read squids_version_number");
 
   if ( squids_version > SQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using SQuIDS version " +
         std::to_string(squids_version) + " current version is " + std::to_string(SQUIDS_VERSION));
 
   unsigned int nusquids_version;
-  H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version);
+  requireSingleValue(group,"basic","nusquids_version_number");
+  requireH5(H5LTget_attribute_uint(group, "basic", "nusquids_version_number", &nusquids_version),"read nusquids_version_number");
   if ( nusquids_version > NUSQUIDS_VERSION )
     throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: File was written using nuSQuIDS version " +
         std::to_string(nusquids_version) + " current version is " + std::to_string(NUSQUIDS_VERSION));
@@ -2399,22 +2487,24 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   } else {
     unsigned int body_id;
     hsize_t dimbody[1];
-    H5LTget_attribute_uint(group,"body","ID",&body_id);
+    requireSingleValue(group,"body","ID");
+    requireH5(H5LTget_attribute_uint(group,"body","ID",&body_id),"read body ID");
 
-    H5LTget_dataset_info(group,"body",dimbody,nullptr,nullptr);
-    double body_params[dimbody[0]];
-    H5LTread_dataset_double(group,"body", body_params);
+    getDatasetExtents(group,"body",1,dimbody);
+    std::unique_ptr<double[]> body_params(new double[dimbody[0]]);
+    requireH5(H5LTread_dataset_double(group,"body", body_params.get()),"read body");
 
     hsize_t dimtrack[1];
-    H5LTget_dataset_info(group,"track",dimtrack,nullptr,nullptr);
+    getDatasetExtents(group,"track",1,dimtrack);
     std::unique_ptr<double[]> track_params(new double[dimtrack[0]]);
-    H5LTread_dataset_double(group,"track", track_params.get());
+    requireH5(H5LTread_dataset_double(group,"track", track_params.get()),"read track");
 
     double x_current;
-    H5LTget_attribute_double(group,"track","X",&x_current);
+    requireSingleValue(group,"track","X");
+    requireH5(H5LTget_attribute_double(group,"track","X",&x_current),"read track position");
 
     // setting body and track
-    SetBodyTrack(body_id,dimbody[0],body_params,dimtrack[0],track_params.get());
+    SetBodyTrack(body_id,dimbody[0],body_params.get(),dimtrack[0],track_params.get());
 
     // set trayectory to current time
     track->SetX(x_current);
@@ -2422,11 +2512,13 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
 
   // reading energy
   hsize_t dims[2];
-  H5LTget_dataset_info(group, "energies", dims, nullptr, nullptr);
+  getDatasetExtents(group, "energies", 1, dims);
+  if (dims[0]==0 or dims[0]>std::numeric_limits<unsigned int>::max())
+    throw std::runtime_error("nuSQUIDS::Error::Invalid number of energies.");
 
   ne = static_cast<unsigned int>(dims[0]);
   std::unique_ptr<double[]> energy_data(new double[ne]);
-  H5LTread_dataset_double(group, "energies", energy_data.get());
+  requireH5(H5LTread_dataset_double(group, "energies", energy_data.get()),"read energies");
   E_range = marray<double,1>{ne};
   for (unsigned int ie = 0; ie < ne; ie++)
     E_range[ie] = energy_data[ie];
@@ -2445,12 +2537,14 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     for( unsigned int j = i+1; j < numneu; j++ ){
       double th_value;
       std::string th_label = "th"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value);
+      requireSingleValue(group,"mixingangles",th_label.c_str());
+      requireH5(H5LTget_attribute_double(group,"mixingangles", th_label.c_str(), &th_value),"read "+th_label);
       Set_MixingAngle(i,j,th_value);
 
       double delta_value;
       std::string delta_label = "delta"+std::to_string(i+1)+std::to_string(j+1);
-      H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value);
+      requireSingleValue(group,"CPphases",delta_label.c_str());
+      requireH5(H5LTget_attribute_double(group,"CPphases", delta_label.c_str(), &delta_value),"read "+delta_label);
       Set_CPPhase(i,j,delta_value);
     }
   }
@@ -2458,7 +2552,8 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   for( unsigned int i = 1; i < numneu; i++ ){
     double dm2_value;
     std::string dm2_label = "dm"+std::to_string(i+1)+"1sq";
-    H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value);
+    requireSingleValue(group,"massdifferences",dm2_label.c_str());
+    requireH5(H5LTget_attribute_double(group,"massdifferences", dm2_label.c_str(), &dm2_value),"read "+dm2_label);
     Set_SquareMassDifference(i, dm2_value);
   }
 
@@ -2481,13 +2576,17 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   EvolveProjectors(squids_time);
 
   // reading state
-  H5LTget_dataset_info(group,"neustate", dims,nullptr,nullptr);
+  getDatasetExtents(group,"neustate",2,dims);
+  if (dims[0]!=ne or dims[1]!=numneu*numneu)
+    throw std::runtime_error("nuSQUIDS::Error::Size of stored state does not match the number of energies and neutrinos.");
   std::unique_ptr<double[]> neudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"neustate", neudata.get());
+  requireH5(H5LTread_dataset_double(group,"neustate", neudata.get()),"read neustate");
 
-  H5LTget_dataset_info(group,"aneustate", dims,nullptr,nullptr);
+  getDatasetExtents(group,"aneustate",2,dims);
+  if (dims[0]!=ne or dims[1]!=numneu*numneu)
+    throw std::runtime_error("nuSQUIDS::Error::Size of stored state does not match the number of energies and neutrinos.");
   std::unique_ptr<double[]> aneudata(new double[dims[0]*dims[1]]);
-  H5LTread_dataset_double(group,"aneustate", aneudata.get());
+  requireH5(H5LTread_dataset_double(group,"aneustate", aneudata.get()),"read aneustate");
 
   for(unsigned int ie = 0; ie < dims[0]; ie++){
     for (unsigned int j = 0; j < dims[1]; j ++){
@@ -2502,8 +2601,6 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     }
   }
 
-  int_struct.reset();
-  interactions_initialized = false;
   if(iinteraction){
     // if intereactions will be used then reading cross section information
     H5Handle xs_grp;
@@ -2528,7 +2625,7 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     else{
       //new files record the specific targets tabulated
       hsize_t rawNTargets=0;
-      H5LTget_dataset_info(xs_grp,"targets",&rawNTargets,nullptr,nullptr);
+      getDatasetExtents(xs_grp,"targets",1,&rawNTargets);
       if(rawNTargets<1)
         throw std::runtime_error("Number of target types for cross sections does not make sense");
       nTargets=rawNTargets;
@@ -2545,12 +2642,24 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     }
     
     //get the actual dimensions of the main tables
-    H5LTget_dataset_info(xs_grp,"sigmacc",&XSdim[0],nullptr,nullptr);
-    H5LTget_dataset_info(xs_grp,"dNdEcc",&dXSdim[0],nullptr,nullptr);
+    getDatasetExtents(xs_grp,"sigmacc",XSdim.size(),&XSdim[0]);
+    getDatasetExtents(xs_grp,"dNdEcc",dXSdim.size(),&dXSdim[0]);
     
     if(!nTargets) //if we don't yet know this, we're reading a new file and it's in the dataset dimensions
       nTargets=XSdim.front(); //first dimension is target type
 
+    // all tables must have the sizes implied by the numbers of targets, neutrinos, and energies
+    std::vector<hsize_t> expectedXS{nTargets,nrhos,numneu,ne};
+    expectedXS.erase(expectedXS.begin(),expectedXS.end()-XSdim.size());
+    std::vector<hsize_t> expecteddXS{nTargets,nrhos,numneu,ne,ne};
+    expecteddXS.erase(expecteddXS.begin(),expecteddXS.end()-dXSdim.size());
+    requireDatasetExtents(xs_grp,"sigmacc",expectedXS);
+    requireDatasetExtents(xs_grp,"sigmanc",expectedXS);
+    requireDatasetExtents(xs_grp,"sigmagr",{ne});
+    requireDatasetExtents(xs_grp,"dNdEcc",expecteddXS);
+    requireDatasetExtents(xs_grp,"dNdEnc",expecteddXS);
+    requireDatasetExtents(xs_grp,"dNdEgr",{ne,ne});
+
     // initialize vectors
     InitializeInteractionVectors(nTargets);
 
@@ -2673,9 +2782,11 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
       H5Handle dNdEtaulep(H5Dopen2(xs_grp,"dNdEtaulep",H5P_DATASET_ACCESS_DEFAULT),H5Dclose,"open dNdEtaulep dataset");
       
       int tau_spectra_rank;
-      H5LTget_dataset_ndims(xs_grp,"dNdEtauall",&tau_spectra_rank);
+      requireH5(H5LTget_dataset_ndims(xs_grp,"dNdEtauall",&tau_spectra_rank),"get rank of dNdEtauall");
       
       if(tau_spectra_rank == 3){ // spectra with polarization
+        requireDatasetExtents(xs_grp,"dNdEtauall",{nrhos,ne,ne});
+        requireDatasetExtents(xs_grp,"dNdEtaulep",{nrhos,ne,ne});
         //check for padding
         if(int_struct->dNdE_tau_all.extent(2)==ne){
           //no padding
@@ -2712,13 +2823,14 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
         }
       }
       else if (tau_spectra_rank == 2) { // legacy data with polarization averaged
-        hsize_t dNdEtaudim[2];
-        H5LTget_dataset_info(xs_grp,"dNdEtauall", dNdEtaudim,nullptr,nullptr);
+        requireDatasetExtents(xs_grp,"dNdEtauall",{ne,ne});
+        requireDatasetExtents(xs_grp,"dNdEtaulep",{ne,ne});
+        hsize_t dNdEtaudim[2]={ne,ne};
         
         std::unique_ptr<double[]> dNdEtauall(new double[dNdEtaudim[0]*dNdEtaudim[1]]);
-        H5LTread_dataset_double(xs_grp,"dNdEtauall", dNdEtauall.get());
+        requireH5(H5LTread_dataset_double(xs_grp,"dNdEtauall", dNdEtauall.get()),"read dNdEtauall");
         std::unique_ptr<double[]> dNdEtaulep(new double[dNdEtaudim[0]*dNdEtaudim[1]]);
-        H5LTread_dataset_double(xs_grp,"dNdEtaulep", dNdEtaulep.get());
+        requireH5(H5LTread_dataset_double(xs_grp,"dNdEtaulep", dNdEtaulep.get()),"read dNdEtaulep");
         
         for(unsigned int rho = 0; rho < nrhos; rho++){
           for( unsigned int e1 = 0; e1 < ne; e1++){
@@ -2747,13 +2859,13 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   }
 
   // read from user parameters
-  hid_t user_parameters_id = H5Gopen(group, "user_parameters", H5P_DEFAULT);
+  H5Handle user_parameters(H5Gopen(group, "user_parameters", H5P_DEFAULT),H5Gclose,"open HDF5 group");
   //H5Eset_auto (H5E_DEFAULT,(H5E_auto_t) H5Eprint,stderr);
-  AddToReadHDF5(user_parameters_id);
+  AddToReadHDF5(user_parameters);
   //H5Eset_auto (H5E_DEFAULT,nullptr,nullptr);
-  H5Gclose(user_parameters_id);
 
   // we assume that this was created with the writer and got to this point!
+  inusquids = true;
   istate = true;
   ienergy = true;
   itrack = true;
-- 
2.43.0


From 6df1c1794c3cb6fe01bc86bcf9a50551d9d3bd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 063/100] fix: the object stays unusable until a stored state
 has been read to the end

---
 src/nuSQuIDS.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 7adfd14..abadc25 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2291,6 +2291,9 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   else {
     init(E_range,squids_time_initial);
   }
+  // there is more to come
+  inusquids = false;
+  ienergy = false;
 
 
   // read and set mixing parameters
@@ -2531,6 +2534,9 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   else {
     init(E_range,squids_time_initial);
   }
+  // there is more to come
+  inusquids = false;
+  ienergy = false;
 
   // read and set mixing parameters
   for( unsigned int i = 0; i < numneu; i++ ){
-- 
2.43.0


From 84e8a04e7b7c577848c9e7f8b9dfb8ad2eb58644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:28 +0000
Subject: [PATCH 064/100] fix: unknown or incomplete bodies in old state files
 are refused without ending the program

---
 src/nuSQuIDS.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index abadc25..2aaf333 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2882,6 +2882,10 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
 
 
 void nuSQUIDS::SetBodyTrack(unsigned int body_id, unsigned int body_params_len, double body_params[], unsigned int track_params_len, double track_params[]){
+    //every track has at least a start and an end, those in the Earth one parameter more
+    const unsigned int track_len = (body_id==4 or body_id==7) ? 3 : 2;
+    if(track_params_len<track_len or (body_id==2 and body_params_len<2))
+      throw std::runtime_error("nuSQUIDS::SetBodyTrack : too few body or track parameters");
     switch(body_id){
       case 1:
         {
@@ -2936,8 +2940,7 @@ void nuSQUIDS::SetBodyTrack(unsigned int body_id, unsigned int body_params_len,
         }
       default:
         {
-          std::cerr << "nuSQUIDS::SetBodyTrack : unknown body/track" << std::endl;
-          exit(1);
+          throw std::runtime_error("nuSQUIDS::SetBodyTrack : unknown body/track");
         }
     }
 }
-- 
2.43.0


From 06c4f1d553f57743afae1ed415c5ad1cd305ce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:54 +0000
Subject: [PATCH 065/100] fix: a stored state is restored with the basis in
 which it was being solved

---
 src/nuSQuIDS.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 2aaf333..b716077 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1835,6 +1835,8 @@ void nuSQUIDS::WriteStateHDF5(std::string str,std::string grp,bool save_cross_se
   requireH5(H5LTset_attribute_int(group, "basic", "tau_regeneration", &auxint, 1),"write basic");
   auxint = static_cast<int>(iglashow);
   requireH5(H5LTset_attribute_int(group, "basic", "glashow_resonance", &auxint, 1),"write basic");
+  auxint = static_cast<int>(basis);
+  requireH5(H5LTset_attribute_int(group, "basic", "basis", &auxint, 1),"write basic");
   double auxt = Get_t();
   requireH5(H5LTset_attribute_double(group, "basic", "squids_time", &auxt,1),"write basic");
   double auxt_ini = Get_t_initial();
@@ -2211,6 +2213,12 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     requireH5(H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint),"read glashow_resonance");
     iglashow=auxint;
   }
+  if(hasAttribute(group,"basic","basis")){
+    requireH5(H5LTget_attribute_int(group, "basic", "basis", &auxint),"read basis");
+    if(auxint!=mass and auxint!=interaction)
+      throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: invalid solution basis.");
+    Set_Basis(static_cast<Basis>(auxint));
+  }
 
   double squids_time;
   requireSingleValue(group,"basic","squids_time");
@@ -2337,7 +2345,8 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   HI_constants = params.sqrt2*params.GF*params.Na*pow(params.cm,-3);
 
   // evolve projectors to current time
-  EvolveProjectors(squids_time);
+  if(basis != mass)
+    EvolveProjectors(squids_time);
 
   // reading state
   getDatasetExtents(group,"neustate",2,dims);
@@ -2453,6 +2462,12 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     requireH5(H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint),"read glashow_resonance");
     iglashow=auxint;
   }
+  if(hasAttribute(group,"basic","basis")){
+    requireH5(H5LTget_attribute_int(group, "basic", "basis", &auxint),"read basis");
+    if(auxint!=mass and auxint!=interaction)
+      throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: invalid solution basis.");
+    Set_Basis(static_cast<Basis>(auxint));
+  }
 
   double squids_time;
   requireSingleValue(group,"basic","squids_time");
@@ -2579,7 +2594,8 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   HI_constants = params.sqrt2*params.GF*params.Na*pow(params.cm,-3);
 
   // evolve projectors to current time
-  EvolveProjectors(squids_time);
+  if(basis != mass)
+    EvolveProjectors(squids_time);
 
   // reading state
   getDatasetExtents(group,"neustate",2,dims);
-- 
2.43.0


From bad8921492e6d4aa61d4d5f7d0421faad4088892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:03 +0000
Subject: [PATCH 066/100] fix: tables cached for another number of neutrinos
 are not used

---
 src/nuSQuIDS.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index b716077..30eae8c 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -545,7 +545,8 @@ void nuSQUIDS::SetUpInteractionCache(){
   //check whether initialization has already been done
   if(interaction_cache.extent(0)==nrhos &&
      interaction_cache.extent(1)==ne &&
-     interaction_cache_store)
+     interaction_cache_store &&
+     interaction_cache[0][0].Dim()==numneu)
     return;
   const size_t nvectors=nrhos*ne;
   const size_t vector_size=numneu*numneu;
-- 
2.43.0


From 4595f2a3a602d45591ab4d97a191d0c6f12c2b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 067/100] fix: a state file cannot combine settings which the
 object refuses, or name another choice of interactions

---
 src/nuSQuIDS.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 30eae8c..3d2ce63 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -2199,9 +2199,15 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
   std::string aux = getStringAttribute(group,"basic","interactions").c_str();
   if ( aux == "True")
     iinteraction = true;
-  else
+  else if ( aux == "False")
     iinteraction = false;
+  else
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: invalid interactions setting.");
 
+  // these settings were not recorded by old versions
+  ioscillations = true;
+  tauregeneration = false;
+  iglashow = false;
   if(hasAttribute(group,"basic","oscillations")){
     requireH5(H5LTget_attribute_int(group, "basic", "oscillations", &auxint),"read oscillations");
     ioscillations=auxint;
@@ -2214,6 +2220,10 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     requireH5(H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint),"read glashow_resonance");
     iglashow=auxint;
   }
+  if((tauregeneration or iglashow) and not iinteraction)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: tau regeneration and the Glashow resonance require interactions.");
+  if(tauregeneration and NT != both)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: tau regeneration requires neutrinos and antineutrinos.");
   if(hasAttribute(group,"basic","basis")){
     requireH5(H5LTget_attribute_int(group, "basic", "basis", &auxint),"read basis");
     if(auxint!=mass and auxint!=interaction)
@@ -2379,7 +2389,7 @@ void nuSQUIDS::ReadStateHDF5Internal(std::string str,std::string grp,std::shared
     if ( iis == nullptr ){
       throw std::runtime_error("nuSQUIDS::ReadStateHDF5::No interaction structure provided.");
     } else {
-      if(iis->sigma_CC.extent(1)!=nrhos or iis->sigma_CC.extent(2)!=numneu or iis->sigma_CC.extent(3)!=round_up_to_aligned(ne))
+      if(iis->dNdE_CC.extent(1)!=nrhos or iis->dNdE_CC.extent(2)!=numneu or iis->dNdE_CC.extent(3)!=ne)
         throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Interaction structure does not match the stored state.");
       int_struct = iis;
       size_t rounded_ne=round_up_to_aligned(ne);
@@ -2448,9 +2458,15 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
   std::string aux = getStringAttribute(group,"basic","interactions").c_str();
   if ( aux == "True")
     iinteraction = true;
-  else
+  else if ( aux == "False")
     iinteraction = false;
+  else
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: invalid interactions setting.");
   
+  // these settings were not recorded by old versions
+  ioscillations = true;
+  tauregeneration = false;
+  iglashow = false;
   if(hasAttribute(group,"basic","oscillations")){
     requireH5(H5LTget_attribute_int(group, "basic", "oscillations", &auxint),"read oscillations");
     ioscillations=auxint;
@@ -2463,6 +2479,10 @@ void nuSQUIDS::ReadStateHDF5(std::string str,std::string grp,std::string cross_s
     requireH5(H5LTget_attribute_int(group, "basic", "glashow_resonance", &auxint),"read glashow_resonance");
     iglashow=auxint;
   }
+  if((tauregeneration or iglashow) and not iinteraction)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: tau regeneration and the Glashow resonance require interactions.");
+  if(tauregeneration and NT != both)
+    throw std::runtime_error("nuSQUIDS::ReadStateHDF5::Error: tau regeneration requires neutrinos and antineutrinos.");
   if(hasAttribute(group,"basic","basis")){
     requireH5(H5LTget_attribute_int(group, "basic", "basis", &auxint),"read basis");
     if(auxint!=mass and auxint!=interaction)
-- 
2.43.0


From 80935f20b10ac71e082370340d1969f60b00cba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 068/100] fix: copies of the interaction tables keep their
 targets, and can be made of constant tables

---
 include/nuSQuIDS/nuSQuIDS.h | 41 ++++++-------------------------------
 1 file changed, 6 insertions(+), 35 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 4baf35d..528b704 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -207,32 +207,13 @@ protected:
         dNdE_tau_lep(aligned_allocator<double>(log2(preferred_alignment*sizeof(double))))
         {}
         /// \brief Assignment operator
-        InteractionStructure& operator=(const InteractionStructure& other){
-          dNdE_CC=other.dNdE_CC;
-          dNdE_NC=other.dNdE_NC;
-          dNdE_GR=other.dNdE_GR;
-          sigma_CC=other.sigma_CC;
-          sigma_NC=other.sigma_NC;
-          sigma_GR=other.sigma_GR;
-          dNdE_tau_all=other.dNdE_tau_all;
-          dNdE_tau_lep=other.dNdE_tau_lep;
-          return(*this);
-        }
+        InteractionStructure& operator=(const InteractionStructure& other)=default;
         /// \brief Move assignment operator
-        InteractionStructure& operator=(InteractionStructure&& other){
-          dNdE_CC=std::move(other.dNdE_CC);
-          dNdE_NC=std::move(other.dNdE_NC);
-          dNdE_GR=std::move(other.dNdE_GR);
-          sigma_CC=std::move(other.sigma_CC);
-          sigma_NC=std::move(other.sigma_NC);
-          sigma_GR=std::move(other.sigma_GR);
-          dNdE_tau_all=std::move(other.dNdE_tau_all);
-          dNdE_tau_lep=std::move(other.dNdE_tau_lep);
-          return(*this);
-        }
+        InteractionStructure& operator=(InteractionStructure&& other)=default;
         /// \brief Equality operator
         bool operator==(const InteractionStructure& other) const{
           if (
+               targets != other.targets or
                dNdE_CC.size() != other.dNdE_CC.size() or
                dNdE_NC.size() != other.dNdE_NC.size() or
                dNdE_GR.size() != other.dNdE_GR.size() or
@@ -277,19 +258,9 @@ protected:
           return not (*this==other);
         }
         /// \brief Copy constructor operator
-        InteractionStructure(InteractionStructure& other):
-          dNdE_CC(other.dNdE_CC),dNdE_NC(other.dNdE_NC),dNdE_GR(other.dNdE_GR),
-          sigma_CC(other.sigma_CC),sigma_NC(other.sigma_NC),sigma_GR(other.sigma_GR),
-          dNdE_tau_all(other.dNdE_tau_all),
-          dNdE_tau_lep(other.dNdE_tau_lep)
-        {}
+        InteractionStructure(const InteractionStructure& other)=default;
         /// \brief Move constructor operator
-        InteractionStructure(InteractionStructure&& other):
-          dNdE_CC(std::move(other.dNdE_CC)),dNdE_NC(std::move(other.dNdE_NC)),dNdE_GR(std::move(other.dNdE_GR)),
-          sigma_CC(std::move(other.sigma_CC)),sigma_NC(std::move(other.sigma_NC)),sigma_GR(std::move(other.sigma_GR)),
-          dNdE_tau_all(std::move(other.dNdE_tau_all)),
-          dNdE_tau_lep(std::move(other.dNdE_tau_lep))
-        {}
+        InteractionStructure(InteractionStructure&& other)=default;
     };
   
   /// \brief Contains the interaction information at the current position.
@@ -321,7 +292,7 @@ protected:
     invlen_INT(aligned_allocator<double>(log2(preferred_alignment*sizeof(double))))
     {}
     /// \brief Copy constructor
-    InteractionState(InteractionState& other):
+    InteractionState(const InteractionState& other):
     invlen_CC(other.invlen_CC),invlen_NC(other.invlen_NC),
     invlen_GR(other.invlen_GR),invlen_INT(other.invlen_INT)
     {}
-- 
2.43.0


From 71d0503eee1ba27163e6cdf3098b6b8cf6308430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:13 +0000
Subject: [PATCH 069/100] fix: a moved object keeps all of its settings, and
 the place it left cannot be used

---
 include/nuSQuIDS/nuSQuIDS.h |  2 ++
 src/nuSQuIDS.cpp            | 66 ++++++++++++++++++++++++++++++++-----
 2 files changed, 60 insertions(+), 8 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 528b704..ad986f0 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -462,6 +462,8 @@ protected:
     double time_offset;
     /// \brief Force flavor projections to be positive.
     void PositivizeFlavors();
+    /// \brief Records that the contents of this object have been taken by another one
+    void MarkUnusable();
     /// \brief Set GSL differential cross section precision.
     double gsl_int_precision = 1.e-3;
     /// \brief Cutoff for low-pass filter applied during state density evolution
diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 3d2ce63..6c8f953 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -307,6 +307,7 @@ void nuSQUIDS::init(marray<double,1> E_vector, double xini){
   //===============================
   // END                         //
   //===============================
+  inusquids = true;
 }
 
 void nuSQUIDS::InitializeInteractionVectors(unsigned int nTargets){
@@ -1022,6 +1023,8 @@ void nuSQUIDS::UpdateInteractions(){
 void nuSQUIDS::InitializeInteractions(){
   if(interactions_initialized)
     return; //nothing to do
+  if(not ienergy)
+    throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
   //===============================
   // init XS and TDecay objects  //
   //===============================
@@ -3041,6 +3044,10 @@ void nuSQUIDS::Set_EvolLowPassScale(double val){
 void nuSQUIDS::Set_IncludeOscillations(bool opt){
   if(opt == ioscillations)
     return;
+  if(not inusquids){ // there is nothing yet to apply it to
+    ioscillations = opt;
+    return;
+  }
   // the vacuum Hamiltonian, and with it the interaction picture, is about to change
   const bool convert_state = istate and basis != mass;
   const double time = Get_t()-Get_t_initial();
@@ -3148,32 +3155,58 @@ NT(other.NT),
 int_struct(std::move(other.int_struct)),
 int_state(std::move(other.int_state)),
 positivization_scale(other.positivization_scale),
-body(other.body),
-track(other.track),
+body(std::move(other.body)),
+track(std::move(other.track)),
 DM2(other.DM2),
 H0_array(std::move(other.H0_array)),
 HI_constants(other.HI_constants),
 current_density(other.current_density),
 current_ye(other.current_ye),
+current_external_flux(std::move(other.current_external_flux)),
 b0_proj(std::move(other.b0_proj)),
 b1_proj(std::move(other.b1_proj)),
 evol_b0_proj(std::move(other.evol_b0_proj)),
 evol_b1_proj(std::move(other.evol_b1_proj)),
+interaction_cache(std::move(other.interaction_cache)),
+interaction_cache_store(std::move(other.interaction_cache_store)),
+interaction_cache_store_size(other.interaction_cache_store_size),
+nc_factors(std::move(other.nc_factors)),
+tau_hadlep_decays(std::move(other.tau_hadlep_decays)),
+tau_lep_decays(std::move(other.tau_lep_decays)),
+gr_factors(std::move(other.gr_factors)),
+use_full_hamiltonian_for_projector_evolution(other.use_full_hamiltonian_for_projector_evolution),
+debug(other.debug),
 inusquids(other.inusquids),
 ibody(other.ibody),
 ienergy(other.ienergy),
 itrack(other.itrack),
 istate(other.istate),
 iinteraction(other.iinteraction),
+interactions_initialized(other.interactions_initialized),
 ioscillations(other.ioscillations),
 tauregeneration(other.tauregeneration),
 iglashow(other.iglashow),
 positivization(other.positivization),
+allowConstantDensityOscillationOnlyEvolution(other.allowConstantDensityOscillationOnlyEvolution),
 progressbar(other.progressbar),
 progressbar_count(other.progressbar_count),
-progressbar_loop(other.progressbar_loop)
+progressbar_loop(other.progressbar_loop),
+time_offset(other.time_offset),
+gsl_int_precision(other.gsl_int_precision),
+evol_lowpass_cutoff(other.evol_lowpass_cutoff),
+evol_lowpass_scale(other.evol_lowpass_scale),
+enable_neutrino_sources(other.enable_neutrino_sources)
 {
-  other.inusquids=false; //other is no longer usable, since we stole its contents
+  other.MarkUnusable(); //other is no longer usable, since we stole its contents
+}
+
+void nuSQUIDS::MarkUnusable(){
+  inusquids = false;
+  ibody = false;
+  ienergy = false;
+  itrack = false;
+  istate = false;
+  interactions_initialized = false;
 }
 
 nuSQUIDS& nuSQUIDS::operator=(nuSQUIDS&& other){
@@ -3192,36 +3225,53 @@ nuSQUIDS& nuSQUIDS::operator=(nuSQUIDS&& other){
   int_struct = std::move(other.int_struct);
   int_state = std::move(other.int_state);
   positivization_scale = other.positivization_scale;
-  body = other.body;
-  track = other.track;
+  body = std::move(other.body);
+  track = std::move(other.track);
   DM2 = other.DM2;
   H0_array = std::move(other.H0_array);
   HI_constants = other.HI_constants;
   current_density = other.current_density;
   current_ye = other.current_ye;
+  current_external_flux = std::move(other.current_external_flux);
   b0_proj = std::move(other.b0_proj);
   b1_proj = std::move(other.b1_proj);
   evol_b0_proj = std::move(other.evol_b0_proj);
   evol_b1_proj = std::move(other.evol_b1_proj);
-
+  interaction_cache = std::move(other.interaction_cache);
+  interaction_cache_store = std::move(other.interaction_cache_store);
+  interaction_cache_store_size = other.interaction_cache_store_size;
+  nc_factors = std::move(other.nc_factors);
+  tau_hadlep_decays = std::move(other.tau_hadlep_decays);
+  tau_lep_decays = std::move(other.tau_lep_decays);
+  gr_factors = std::move(other.gr_factors);
+
+  use_full_hamiltonian_for_projector_evolution = other.use_full_hamiltonian_for_projector_evolution;
+  debug = other.debug;
   inusquids = other.inusquids;
   ibody = other.ibody;
   ienergy = other.ienergy;
   itrack = other.itrack;
   istate = other.istate;
   iinteraction = other.iinteraction;
+  interactions_initialized = other.interactions_initialized;
   ioscillations = other.ioscillations;
   tauregeneration = other.tauregeneration;
   iglashow = other.iglashow;
   positivization = other.positivization;
+  allowConstantDensityOscillationOnlyEvolution = other.allowConstantDensityOscillationOnlyEvolution;
   progressbar = other.progressbar;
   progressbar_count = other.progressbar_count;
   progressbar_loop = other.progressbar_loop;
+  time_offset = other.time_offset;
+  gsl_int_precision = other.gsl_int_precision;
+  evol_lowpass_cutoff = other.evol_lowpass_cutoff;
+  evol_lowpass_scale = other.evol_lowpass_scale;
+  enable_neutrino_sources = other.enable_neutrino_sources;
 
   NT = other.NT;
 
   // initial nusquids object render useless
-  other.inusquids = false;
+  other.MarkUnusable();
 
   return(*this);
 }
-- 
2.43.0


From 7d9af0730907d8cfdf60d490b439e22c11f5fdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:20 +0000
Subject: [PATCH 070/100] fix: a track which is not there is refused

---
 src/nuSQuIDS.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 6c8f953..30ac444 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1267,6 +1267,8 @@ void nuSQUIDS::Set_Body(std::shared_ptr<Body> body_in){
 }
 
 void nuSQUIDS::Set_Track(std::shared_ptr<Track> track_in){
+  if ( track_in == nullptr )
+    throw std::runtime_error("nuSQUIDS::Error::TRACK is a NULL pointer");
   // setting time offset
   time_offset = Get_t() - track_in->GetInitialX();
   // enforce track beginningness
-- 
2.43.0


From 4d7abfc2bfa4f2f62ec3ab270eba1b3aad5753d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 071/100] fix: mixing parameters of a state which does not
 exist are refused

---
 src/nuSQuIDS.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 30ac444..ffe4dfe 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -3085,40 +3085,40 @@ std::shared_ptr<Body> nuSQUIDS::GetBody(){
 }
 
 void nuSQUIDS::Set_MixingAngle( unsigned int i, unsigned int j, double val){
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_MixingAngle::Error: Mixing angle index greater than number of neutrino flavors.");
   params.SetMixingAngle(i,j,val);
   istate = false;
 }
 
 double nuSQUIDS::Get_MixingAngle( unsigned int i, unsigned int j) const {
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_MixingAngle::Error: Mixing angle index greater than number of neutrino flavors.");
   return params.GetMixingAngle(i,j);
 }
 
 void nuSQUIDS::Set_CPPhase( unsigned int i, unsigned int j, double val){
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_CPPhase::Error: CP phase index greater than number of neutrino flavors.");
   params.SetPhase(i,j,val);
   istate = false;
 }
 
 double nuSQUIDS::Get_CPPhase( unsigned int i, unsigned int j) const {
-  if ( i > numneu or j > numneu)
+  if ( i >= numneu or j >= numneu)
     throw std::invalid_argument("nuSQUIDS::Set_CPPhase::Error: CP phase index greater than number of neutrino flavors.");
   return params.GetPhase(i,j);
 }
 
 void nuSQUIDS::Set_SquareMassDifference( unsigned int i, double val){
-  if ( i > numneu )
+  if ( i >= numneu )
     throw std::invalid_argument("nuSQUIDS::Set_SquareMassDifference::Error: Index greater than number of neutrino flavors.");
   params.SetEnergyDifference(i,val);
   istate = false;
 }
 
 double nuSQUIDS::Get_SquareMassDifference( unsigned int i ) const {
-  if ( i > numneu )
+  if ( i >= numneu )
     throw std::invalid_argument("nuSQUIDS::Set_SquareMassDifference::Error: Index greater than number of neutrino flavors.");
   return params.GetEnergyDifference(i);
 }
-- 
2.43.0


From 6d8c4bf998cf25cfdcfa3ac44db4e1676a09fe75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:35 +0000
Subject: [PATCH 072/100] fix: the composition of flavors, nodes and energies
 which do not exist is refused

---
 src/nuSQuIDS.cpp | 52 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index ffe4dfe..474f265 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1534,22 +1534,26 @@ size_t nuSQUIDS::GetNumE() const{
 double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
-  if ( basis == mass )
-    return b0_proj[flv]*GetIntermediateState(rho,EE);
-  if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho = "+std::to_string(rho)+" in this NT mode.");
+  if ( not (EE >= *E_range.begin() && EE <= *E_range.rbegin()) )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
+  if ( basis == mass )
+    return b0_proj[flv]*GetIntermediateState(rho,EE);
   return GetExpectationValueD(b0_proj[flv], rho, EE);
 }
 
 double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
-  if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho = "+std::to_string(rho)+" in this NT mode.");
+  if ( not (EE >= *E_range.begin() && EE <= *E_range.rbegin()) )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
   if ( basis == mass )
@@ -1560,9 +1564,11 @@ double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho) const{
 double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho, double scale, std::vector<bool>& avr) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
-  if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho = "+std::to_string(rho)+" in this NT mode.");
+  if ( not (EE >= *E_range.begin() && EE <= *E_range.rbegin()) )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
   if (avr.size() != numneu)
@@ -1575,9 +1581,11 @@ double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho, double s
 double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho, double scale, std::vector<bool>& avr) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
-  if ( EE < *E_range.begin() || EE > *E_range.rbegin() )
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho = "+std::to_string(rho)+" in this NT mode.");
+  if ( not (EE >= *E_range.begin() && EE <= *E_range.rbegin()) )
     throw std::runtime_error("nuSQUIDS::Error::Energy "+std::to_string(EE)+" outside of propagated energy range, ["
                              +std::to_string(*E_range.begin())+","+std::to_string(*E_range.rbegin())+"].");
   if (avr.size() != numneu)
@@ -1590,8 +1598,12 @@ double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho, double
 double nuSQUIDS::EvalMassAtNode(unsigned int flv, unsigned int ei, unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho = "+std::to_string(rho)+" in this NT mode.");
+  if ( ei >= ne )
+    throw std::runtime_error("nuSQUIDS::Error::Energy node index greater than number of energy nodes.");
   if(basis == mass)
     return b0_proj[flv]*state[ei].rho[rho];
   return GetExpectationValue(b0_proj[flv], rho, ei);
@@ -1600,8 +1612,12 @@ double nuSQUIDS::EvalMassAtNode(unsigned int flv, unsigned int ei, unsigned int
 double nuSQUIDS::EvalFlavorAtNode(unsigned int flv, unsigned int ei, unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
-  if ( rho != 0 and NT != both )
-    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho != 0 in this NT mode.");
+  if ( flv >= numneu )
+    throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if ( rho >= nrhos )
+    throw std::runtime_error("nuSQUIDS::Error::Cannot evaluate rho = "+std::to_string(rho)+" in this NT mode.");
+  if ( ei >= ne )
+    throw std::runtime_error("nuSQUIDS::Error::Energy node index greater than number of energy nodes.");
   if(basis == mass)
     return b1_proj[rho][flv]*state[ei].rho[rho];
   return GetExpectationValue(b1_proj[rho][flv], rho, ei);
-- 
2.43.0


From 59f315422d8413b9adbb4b6676ec36c6f94e5247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 073/100] fix: an initial state is required before its
 composition is evaluated

---
 src/nuSQuIDS.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 474f265..00a672b 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1534,6 +1534,8 @@ size_t nuSQUIDS::GetNumE() const{
 double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
+  if ( not istate )
+    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if ( flv >= numneu )
     throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( rho >= nrhos )
@@ -1549,6 +1551,8 @@ double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho) const{
 double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
+  if ( not istate )
+    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if ( flv >= numneu )
     throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( rho >= nrhos )
@@ -1564,6 +1568,8 @@ double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho) const{
 double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho, double scale, std::vector<bool>& avr) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
+  if ( not istate )
+    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if ( flv >= numneu )
     throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( rho >= nrhos )
@@ -1581,6 +1587,8 @@ double nuSQUIDS::EvalMass(unsigned int flv,double EE, unsigned int rho, double s
 double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho, double scale, std::vector<bool>& avr) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
+  if ( not istate )
+    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if ( flv >= numneu )
     throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( rho >= nrhos )
@@ -1598,6 +1606,8 @@ double nuSQUIDS::EvalFlavor(unsigned int flv,double EE,unsigned int rho, double
 double nuSQUIDS::EvalMassAtNode(unsigned int flv, unsigned int ei, unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
+  if ( not istate )
+    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if ( flv >= numneu )
     throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( rho >= nrhos )
@@ -1612,6 +1622,8 @@ double nuSQUIDS::EvalMassAtNode(unsigned int flv, unsigned int ei, unsigned int
 double nuSQUIDS::EvalFlavorAtNode(unsigned int flv, unsigned int ei, unsigned int rho) const{
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
+  if ( not istate )
+    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if ( flv >= numneu )
     throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
   if ( rho >= nrhos )
@@ -1624,16 +1636,18 @@ double nuSQUIDS::EvalFlavorAtNode(unsigned int flv, unsigned int ei, unsigned in
 }
 
 double nuSQUIDS::EvalMass(unsigned int flv, double scale, std::vector<bool>& avr) const{
-  if(state == nullptr)
-    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if(not inusquids)
     throw std::runtime_error("nuSQUIDS::Error::nuSQUIDS not initialized.");
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
+  if ( not istate )
+    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if( ne != 1 )
     throw std::runtime_error("nuSQUIDS::Error::Use this function only in single energy mode.");
   if( flv >= nsun )
     throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if (avr.size() != numneu)
+    throw std::runtime_error("nuSQUIDS::Error::Average vector bool size must be the number of neutrinos.");
 
   if(basis == mass)
     return b0_proj[flv]*state[0].rho[0];
@@ -1641,16 +1655,18 @@ double nuSQUIDS::EvalMass(unsigned int flv, double scale, std::vector<bool>& avr
 }
 
 double nuSQUIDS::EvalFlavor(unsigned int flv, double scale, std::vector<bool>& avr) const{
-  if(state == nullptr)
-    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if(not inusquids)
     throw std::runtime_error("nuSQUIDS::Error::nuSQUIDS not initialized.");
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
+  if ( not istate )
+    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if( ne != 1 )
     throw std::runtime_error("nuSQUIDS::Error::Use this function only in single energy mode.");
   if( flv >= nsun )
     throw std::runtime_error("nuSQUIDS::Error::Flavor index greater than number of initialized flavors.");
+  if (avr.size() != numneu)
+    throw std::runtime_error("nuSQUIDS::Error::Average vector bool size must be the number of neutrinos.");
 
   if(basis == mass)
     return b1_proj[0][flv]*state[0].rho[0];
@@ -1658,12 +1674,12 @@ double nuSQUIDS::EvalFlavor(unsigned int flv, double scale, std::vector<bool>& a
 }
 
 double nuSQUIDS::EvalMass(unsigned int flv) const{
-  if(state == nullptr)
-    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if(not inusquids)
     throw std::runtime_error("nuSQUIDS::Error::nuSQUIDS not initialized.");
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
+  if ( not istate )
+    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if( ne != 1 )
     throw std::runtime_error("nuSQUIDS::Error::Use this function only in single energy mode.");
   if( flv >= nsun )
@@ -1675,12 +1691,12 @@ double nuSQUIDS::EvalMass(unsigned int flv) const{
 }
 
 double nuSQUIDS::EvalFlavor(unsigned int flv) const{
-  if(state == nullptr)
-    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if(not inusquids)
     throw std::runtime_error("nuSQUIDS::Error::nuSQUIDS not initialized.");
   if ( not ienergy )
     throw std::runtime_error("nuSQUIDS::Error::Energy not set.");
+  if ( not istate )
+    throw std::runtime_error("nuSQUIDS::Error::State not initialized.");
   if( ne != 1 )
     throw std::runtime_error("nuSQUIDS::Error::Use this function only in single energy mode.");
   if( flv >= nsun )
-- 
2.43.0


From 7125ff228a2ca287c0e322b01f028bd7bdb7f651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 074/100] fix: a new atmospheric object has no initial state,
 and one read from a file a number of threads

---
 include/nuSQuIDS/nuSQuIDS.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index ad986f0..6333f08 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1060,9 +1060,9 @@ class nuSQUIDSAtm {
       return f1*yM + f2*yP;
     }
     /// \brief Boolean that signals that an initial state has being set.
-    bool iinistate;
+    bool iinistate = false;
     /// \brief Boolean that signals the object correct initialization.
-    bool inusquidsatm;
+    bool inusquidsatm = false;
     /// \brief Contains the cos(zenith) nodes.
     marray<double,1> costh_array;
     /// \brief Contains the energy nodes [eV].
@@ -1081,7 +1081,7 @@ class nuSQUIDSAtm {
     /// \brief Contains the interaction information structure.
     std::shared_ptr<typename BaseSQUIDS::InteractionStructure> int_struct;
     /// \brief the number of threads to use when performing the evolution
-    unsigned int evalThreads;
+    unsigned int evalThreads = 1;
   public:
     /************************************************************************************
      * CONSTRUCTORS
-- 
2.43.0


From 4086e6323be49d2189fe1e0ef48b65333c39fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 075/100] fix: failures of the parallel evolution are reported

---
 include/nuSQuIDS/nuSQuIDS.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 6333f08..0599158 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1292,6 +1292,8 @@ class nuSQUIDSAtm {
             std::cout << "cos(th) = " + std::to_string(costh_array[i++]) << " complete" << std::endl;
         }
         Set_ProgressBar(overrideProgressBar);
+        for(auto& task : tasks)
+          task.get(); //report any failure
       }
     }
 
-- 
2.43.0


From 9d7ec9542a43249b207af2adf72e9ede940a7cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 076/100] fix: a moved atmospheric object keeps its random
 number generator, which is released with it

---
 include/nuSQuIDS/nuSQuIDS.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 0599158..9ee0277 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1046,7 +1046,7 @@ class nuSQUIDSAtm {
     using BaseSQUIDS = BaseType;
   private:
     /// \brief Random number generator
-    gsl_rng * r_gsl;
+    std::unique_ptr<gsl_rng,void (*)(gsl_rng *)> r_gsl{nullptr,gsl_rng_free};
     // /// \brief Mixing matrix
     // std::unique_ptr<gsl_matrix_complex,void (*)(gsl_matrix_complex *)> U{nullptr,[](gsl_matrix_complex*m){delete m;}};
     /// \brief Internal units
@@ -1103,7 +1103,7 @@ class nuSQUIDSAtm {
     {
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
-      r_gsl = gsl_rng_alloc (T_gsl);
+      r_gsl.reset(gsl_rng_alloc (T_gsl));
 
       earth_atm = std::make_shared<EarthAtm>();
       for(double costh : costh_array)
@@ -1134,13 +1134,14 @@ class nuSQUIDSAtm {
     nuSQUIDSAtm(std::string hdf5_filename) {
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
-      r_gsl = gsl_rng_alloc (T_gsl);
+      r_gsl.reset(gsl_rng_alloc (T_gsl));
       ReadStateHDF5(hdf5_filename);
       //U = nusq_array[0].GetTransformationMatrix();
     }
 
     /// \brief Move constructor.
     nuSQUIDSAtm(nuSQUIDSAtm&& other):
+    r_gsl(std::move(other.r_gsl)),
     progressbar(other.progressbar),
     iinistate(other.iinistate),
     inusquidsatm(other.inusquidsatm),
@@ -1163,6 +1164,7 @@ class nuSQUIDSAtm {
       if(&other==this)
         return(*this);
 
+      r_gsl = std::move(other.r_gsl);
       progressbar = other.progressbar;
       iinistate = other.iinistate;
       inusquidsatm = other.inusquidsatm;
@@ -1348,7 +1350,7 @@ class nuSQUIDSAtm {
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
       if (randomize_production_height){
-        double production_height = gsl_ran_flat(r_gsl,-15*units.km,15*units.km);
+        double production_height = gsl_ran_flat(r_gsl.get(),-15*units.km,15*units.km);
         delta_t_final += production_height;
       }
       
-- 
2.43.0


From 5de0e985075a381ca350efc7bc0cb9034131125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 077/100] fix: the paths of an atmospheric object are those of
 its Earth model

---
 include/nuSQuIDS/nuSQuIDS.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 9ee0277..68c24b8 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1870,9 +1870,17 @@ class nuSQUIDSAtm {
     /// \brief Stes Earth object to be use.
     /// @param earth Shared pointer to Earth object.
     void Set_EarthModel(std::shared_ptr<EarthAtm> earth){
+      if(earth == nullptr)
+        throw std::runtime_error("nuSQUIDSAtm::Error::Earth model is a NULL pointer.");
       earth_atm=earth;
+      track_array.clear();
+      unsigned int i = 0;
       for(BaseSQUIDS& nsq : nusq_array){
+        // the geometry may be another one
+        track_array.push_back(std::make_shared<EarthAtm::Track>(earth_atm->MakeTrackWithCosine(costh_array[i])));
         nsq.Set_Body(earth);
+        nsq.Set_Track(track_array[i]);
+        i++;
       }
     }
   
-- 
2.43.0


From ed730ae5b5ee039c4f653ae494f13772a84dd5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 078/100] fix: zeniths which do not exist are refused

---
 include/nuSQuIDS/nuSQuIDS.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 68c24b8..1dba3cf 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1101,6 +1101,8 @@ class nuSQUIDSAtm {
     costh_array(costh_array),
     evalThreads(1)
     {
+      if(costh_array.empty())
+        throw std::runtime_error("nuSQUIDSAtm::Error::At least one zenith angle is required.");
       gsl_rng_env_setup();
       const gsl_rng_type * T_gsl = gsl_rng_default;
       r_gsl.reset(gsl_rng_alloc (T_gsl));
@@ -1606,7 +1608,7 @@ class nuSQUIDSAtm {
     ///              must be larger than \c i.
     /// \details Gets the neutrino mixing angle. In our zero-based convention, e.g., the th_12 is i = 0, j = 1.,etc.
     double Get_MixingAngle(unsigned int i, unsigned int j) const{
-      return nusq_array[0].Get_MixingAngle(i,j);
+      return nusq_array.at(0).Get_MixingAngle(i,j);
     }
 
     /// \brief Sets the CP phase for the ij-rotation.
@@ -1627,7 +1629,7 @@ class nuSQUIDSAtm {
     ///              must be larger than \c i.
     /// \details Gets the CP phase for the ij-rotation. In our zero-based convention, e.g., the delta_13 = delta_CP  is i = 0, j = 2.,etc.
     double Get_CPPhase(unsigned int i, unsigned int j) const{
-      return nusq_array[0].Get_CPPhase(i,j);
+      return nusq_array.at(0).Get_CPPhase(i,j);
     }
 
     /// \brief Sets the square mass difference with respect to first mass eigenstate
@@ -1646,7 +1648,7 @@ class nuSQUIDSAtm {
     ///              must be larger than \c i.
     /// \details Returns square mass difference with respect to the first mass eigenstate. In our zero-based convention, e.g., the \f$\Delta m^2_{12}\f$ corresponds to (i = 1),etc.
     double Get_SquareMassDifference(unsigned int i) const{
-      return nusq_array[0].Get_SquareMassDifference(i);
+      return nusq_array.at(0).Get_SquareMassDifference(i);
     }
 
     /// \brief Set the initial integration step size
@@ -1660,7 +1662,7 @@ class nuSQUIDSAtm {
     /// \param h initial step size
     /// \param idx energy node index
     void Set_h(double h, unsigned int idx){
-      nusq_array[idx].Set_h(h);
+      GetnuSQuIDS(idx).Set_h(h);
     }
   
     /// \brief Set the maximum integration step size
@@ -1674,7 +1676,7 @@ class nuSQUIDSAtm {
     /// \param h maximum step size
     /// \param idx energy node index
     void Set_h_max(double h, unsigned int idx){
-      nusq_array[idx].Set_h_max(h);
+      GetnuSQuIDS(idx).Set_h_max(h);
     }
   
     /// \brief Set the minimum integration step size
@@ -1688,7 +1690,7 @@ class nuSQUIDSAtm {
     /// \param h minimum step size
     /// \param idx energy node index
     void Set_h_min(double h, unsigned int idx){
-      nusq_array[idx].Set_h_min(h);
+      GetnuSQuIDS(idx).Set_h_min(h);
     }
 
     /// \brief Set the allowed absolute numerical error
@@ -1702,7 +1704,7 @@ class nuSQUIDSAtm {
     /// \param eps maximum allowed error
     /// \param idx energy node index
     void Set_abs_error(double eps, unsigned int idx){
-      nusq_array[idx].Set_abs_error(eps);
+      GetnuSQuIDS(idx).Set_abs_error(eps);
     }
 
     /// \brief Set the allowed relative numerical error
@@ -1716,7 +1718,7 @@ class nuSQUIDSAtm {
     /// \param eps maximum allowed error
     /// \param idx energy node index
     void Set_rel_error(double eps, unsigned int idx){
-      nusq_array[idx].Set_rel_error(eps);
+      GetnuSQuIDS(idx).Set_rel_error(eps);
     }
 
     /// \brief Sets the GSL solver
@@ -1753,12 +1755,12 @@ class nuSQUIDSAtm {
 
     /// \brief Returns the number of neutrino flavors.
     unsigned int GetNumNeu() const{
-      return nusq_array[0].GetNumNeu();
+      return nusq_array.at(0).GetNumNeu();
     }
 
     /// \brief Returns the number of rho equations.
     unsigned int GetNumRho() const{
-      return nusq_array[0].GetNumRho();
+      return nusq_array.at(0).GetNumRho();
     }
 
     /// \brief Returns number of nodes.
-- 
2.43.0


From f4a2bb1f5a45490c7ed5dbf6d2314e487e8eec20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 079/100] fix: compositions of flavors, types, energies and
 zeniths an atmospheric object does not have are refused

---
 include/nuSQuIDS/nuSQuIDS.h | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 1dba3cf..ac320eb 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1315,12 +1315,20 @@ class nuSQUIDSAtm {
         throw std::runtime_error("nuSQUIDSAtm::Error::State not initialized.");
       if(not inusquidsatm)
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
-      if(not ( rho == 0 or rho == 1))
-        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor rho has to be 0 or 1.");
+      for(const BaseSQUIDS& nsq : nusq_array){
+        if(not nsq.istate)
+          throw std::runtime_error("nuSQUIDSAtm::Error::State not initialized.");
+      }
+      if( flv >= GetNumNeu() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor flavor index greater than number of flavors.");
+      if( rho >= GetNumRho() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor rho = " + std::to_string(rho) + " does not exist in this NT mode.");
       
-      if( costh < *costh_array.begin() or costh > *costh_array.rbegin())
+      if( not (costh >= *costh_array.begin() and costh <= *costh_array.rbegin()))
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::cos(th) out of bounds.");
-      if( enu < *enu_array.begin() or enu > *enu_array.rbegin() )
+      if( enu_array.empty() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor can only be used in multiple energy mode.");
+      if( not (enu >= *enu_array.begin() and enu <= *enu_array.rbegin()) )
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::neutrino energy out of bounds.(Emin = " +
                                  std::to_string(*enu_array.begin()) +
                                  ",Emax = " +
@@ -1408,12 +1416,22 @@ class nuSQUIDSAtm {
         throw std::runtime_error("nuSQUIDSAtm::Error::State not initialized.");
       if(not inusquidsatm)
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
-      if(not ( rho == 0 or rho == 1))
-        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor rho has to be 0 or 1.");
+      for(const BaseSQUIDS& nsq : nusq_array){
+        if(not nsq.istate)
+          throw std::runtime_error("nuSQUIDSAtm::Error::State not initialized.");
+      }
+      if( flv >= GetNumNeu() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor flavor index greater than number of flavors.");
+      if( rho >= GetNumRho() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor rho = " + std::to_string(rho) + " does not exist in this NT mode.");
+      if( avr.size() != GetNumNeu() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::Average vector bool size must be the number of neutrinos.");
       
-      if( costh < *costh_array.begin() or costh > *costh_array.rbegin())
+      if( not (costh >= *costh_array.begin() and costh <= *costh_array.rbegin()))
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::cos(th) out of bounds.");
-      if( enu < *enu_array.begin() or enu > *enu_array.rbegin() )
+      if( enu_array.empty() )
+        throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor can only be used in multiple energy mode.");
+      if( not (enu >= *enu_array.begin() and enu <= *enu_array.rbegin()) )
         throw std::runtime_error("nuSQUIDSAtm::Error::EvalFlavor::neutrino energy out of bounds.(Emin = " +
                                  std::to_string(*enu_array.begin()) +
                                  ",Emax = " +
-- 
2.43.0


From ed333cc39abf981e1b9d94817eb12841f53625d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 080/100] fix: atmospheric objects with a single zenith or
 energy are evaluated from what they hold

---
 include/nuSQuIDS/nuSQuIDS.h | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index ac320eb..10e406a 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1341,6 +1341,7 @@ class nuSQUIDSAtm {
       if(cthit!=costh_array.begin())
         cthit--;
       size_t cth_M=std::distance(costh_array.begin(),cthit);
+      size_t cth_P=std::min(cth_M+1,size_t(costh_array.size()-1));
       
       /*double logE = log(enu);
       auto logeit=std::lower_bound(log_enu_array.begin(),log_enu_array.end(),logE);
@@ -1356,6 +1357,7 @@ class nuSQUIDSAtm {
       if(eit!=enu_array.begin())
         eit--;
       size_t loge_M=std::distance(enu_array.begin(),eit);
+      size_t loge_P=std::min(loge_M+1,size_t(enu_array.size()-1));
       
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
@@ -1366,9 +1368,9 @@ class nuSQUIDSAtm {
       
       // assuming offsets are zero
       double delta_t_1 = nusq_array[cth_M].Get_t() - nusq_array[cth_M].Get_t_initial();
-      double delta_t_2 = nusq_array[cth_M+1].Get_t() - nusq_array[cth_M+1].Get_t_initial();
+      double delta_t_2 = nusq_array[cth_P].Get_t() - nusq_array[cth_P].Get_t_initial();
       double delta_t_final_1 = nusq_array[cth_M].GetTrackFast().GetFinalX() - nusq_array[cth_M].GetTrackFast().GetInitialX();
-      double delta_t_final_2 = nusq_array[cth_M+1].GetTrackFast().GetFinalX() - nusq_array[cth_M+1].GetTrackFast().GetInitialX();
+      double delta_t_final_2 = nusq_array[cth_P].GetTrackFast().GetFinalX() - nusq_array[cth_P].GetTrackFast().GetInitialX();
       double t_inter = 0.5*(delta_t_final*delta_t_1/delta_t_final_1 + delta_t_final*delta_t_2/delta_t_final_2);
       
       squids::SU_vector H0_at_enu = nusq_array[0].H0(enu,rho);
@@ -1385,19 +1387,21 @@ class nuSQUIDSAtm {
       storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(H0_at_enu,t_inter);
       
       //coefficients for energy interpolation
-      double f2=(enu-enu_array[loge_M])/(enu_array[loge_M+1]-enu_array[loge_M]);
+      double f2=(loge_P==loge_M ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]));
       double f1=1-f2;
 
       storage.temp1 =f1*nusq_array[cth_M  ].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_M+1,rho);
+      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_P,rho);
       double phiM=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
-      storage.temp1 =f1*nusq_array[cth_M+1].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M+1].GetState(loge_M+1,rho);
+      storage.temp1 =f1*nusq_array[cth_P].GetState(loge_M  ,rho);
+      storage.temp1+=f2*nusq_array[cth_P].GetState(loge_P,rho);
       double phiP=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
+      if(cth_P==cth_M)
+        return(phiM);
       //perform angular interpolation
-      return(LinInter(costh,costh_array[cth_M],costh_array[cth_M+1],phiM,phiP));
+      return(LinInter(costh,costh_array[cth_M],costh_array[cth_P],phiM,phiP));
     }
 
     /// \brief Returns the flavor composition at a given energy and zenith.
@@ -1444,6 +1448,7 @@ class nuSQUIDSAtm {
       if(cthit!=costh_array.begin())
         cthit--;
       size_t cth_M=std::distance(costh_array.begin(),cthit);
+      size_t cth_P=std::min(cth_M+1,size_t(costh_array.size()-1));
       
       /*double logE = log(enu);
       auto logeit=std::lower_bound(log_enu_array.begin(),log_enu_array.end(),logE);
@@ -1459,15 +1464,16 @@ class nuSQUIDSAtm {
       if(eit!=enu_array.begin())
         eit--;
       size_t loge_M=std::distance(enu_array.begin(),eit);
+      size_t loge_P=std::min(loge_M+1,size_t(enu_array.size()-1));
       
       EarthAtm::Track track=earth_atm->MakeTrackWithCosine(costh);
       double delta_t_final = track.GetFinalX()-track.GetInitialX();
       
       // assuming offsets are zero
       double delta_t_1 = nusq_array[cth_M].Get_t() - nusq_array[cth_M].Get_t_initial();
-      double delta_t_2 = nusq_array[cth_M+1].Get_t() - nusq_array[cth_M+1].Get_t_initial();
+      double delta_t_2 = nusq_array[cth_P].Get_t() - nusq_array[cth_P].Get_t_initial();
       double delta_t_final_1 = nusq_array[cth_M].GetTrackFast().GetFinalX() - nusq_array[cth_M].GetTrackFast().GetInitialX();
-      double delta_t_final_2 = nusq_array[cth_M+1].GetTrackFast().GetFinalX() - nusq_array[cth_M+1].GetTrackFast().GetInitialX();
+      double delta_t_final_2 = nusq_array[cth_P].GetTrackFast().GetFinalX() - nusq_array[cth_P].GetTrackFast().GetInitialX();
       double t_inter = 0.5*(delta_t_final*delta_t_1/delta_t_final_1 + delta_t_final*delta_t_2/delta_t_final_2);
       
       squids::SU_vector H0_at_enu = nusq_array[0].H0(enu,rho);
@@ -1486,20 +1492,22 @@ class nuSQUIDSAtm {
       storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(evol_buffer.get());
       
       //coefficients for energy interpolation
-      double f2=(enu-enu_array[loge_M])/(enu_array[loge_M+1]-enu_array[loge_M]);
+      double f2=(loge_P==loge_M ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]));
       double f1=1-f2;
       
       storage.temp1 =f1*nusq_array[cth_M  ].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_M+1,rho);
+      storage.temp1+=f2*nusq_array[cth_M  ].GetState(loge_P,rho);
 
       double phiM=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
-      storage.temp1 =f1*nusq_array[cth_M+1].GetState(loge_M  ,rho);
-      storage.temp1+=f2*nusq_array[cth_M+1].GetState(loge_M+1,rho);
+      storage.temp1 =f1*nusq_array[cth_P].GetState(loge_M  ,rho);
+      storage.temp1+=f2*nusq_array[cth_P].GetState(loge_P,rho);
       double phiP=squids::SUTrace<squids::detail::AlignedStorage>(storage.temp1,storage.evol_proj);
       
+      if(cth_P==cth_M)
+        return(phiM);
       //perform angular interpolation
-      return(LinInter(costh,costh_array[cth_M],costh_array[cth_M+1],phiM,phiP));
+      return(LinInter(costh,costh_array[cth_M],costh_array[cth_P],phiM,phiP));
     }
 
     /// \brief Writes the object into an HDF5 file.
-- 
2.43.0


From 419a3ddcd5f489f59ce441a0d0a7a96c37ff8a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 081/100] fix: atmospheric states solved in the mass basis are
 evaluated in it

---
 include/nuSQuIDS/nuSQuIDS.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 10e406a..a24e583 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1384,7 +1384,10 @@ class nuSQUIDSAtm {
   #endif
       storage_type storage(H0_at_enu.Dim());
       
-      storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(H0_at_enu,t_inter);
+      if(nusq_array[0].basis == mass) // not in the interaction picture
+        storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho);
+      else
+        storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(H0_at_enu,t_inter);
       
       //coefficients for energy interpolation
       double f2=(loge_P==loge_M ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]));
@@ -1489,7 +1492,10 @@ class nuSQUIDSAtm {
       // preevolution buffer
       std::unique_ptr<double[]> evol_buffer(new double[H0_at_enu.GetEvolveBufferSize()]);
       H0_at_enu.PrepareEvolve(evol_buffer.get(),t_inter,scale,avr);
-      storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(evol_buffer.get());
+      if(nusq_array[0].basis == mass) // not in the interaction picture
+        storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho);
+      else
+        storage.evol_proj = nusq_array[0].GetFlavorProj(flv,rho).Evolve(evol_buffer.get());
       
       //coefficients for energy interpolation
       double f2=(loge_P==loge_M ? 0 : (enu-enu_array[loge_M])/(enu_array[loge_P]-enu_array[loge_M]));
-- 
2.43.0


From 4346242e28a7b3a58c2b2e3faa1688b75a48ef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 082/100] fix: an atmospheric state can be added to an existing
 file, and one which could not be stored is reported

---
 include/nuSQuIDS/nuSQuIDS.h | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index a24e583..faf49a2 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1526,25 +1526,26 @@ class nuSQUIDSAtm {
       if(not inusquidsatm)
         throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
 
-      hid_t file_id,root_id;
-      hid_t dset_id;
-      // create HDF5 file
-      if(overwrite)
-        file_id = H5Fcreate (filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
-      else
-        file_id = H5Fcreate (filename.c_str(), H5F_ACC_RDWR, H5P_DEFAULT, H5P_DEFAULT);
-      if (file_id < 0)
+      {
+        // create HDF5 file, or add to one which should not be overwritten
+        H5File file(overwrite ?
+                    H5Fcreate(filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT) :
+                    H5Fopen(filename.c_str(), H5F_ACC_RDWR, H5P_DEFAULT));
+        if (file < 0 and not overwrite)
+          file = H5File(H5Fcreate(filename.c_str(), H5F_ACC_EXCL, H5P_DEFAULT, H5P_DEFAULT));
+        if (file < 0)
           throw std::runtime_error("nuSQUIDS::Error::Cannot create file at " + filename + ".");
-      root_id = H5Gopen(file_id, "/",H5P_DEFAULT);
-
-      // write the zenith range
-      hsize_t costhdims[1]={costh_array.extent(0)};
-      dset_id = H5LTmake_dataset(root_id,"zenith_angles",1,costhdims,H5T_NATIVE_DOUBLE,costh_array.get_data());
-      hsize_t energydims[1]={enu_array.extent(0)};
-      dset_id = H5LTmake_dataset(root_id,"energy_range",1,energydims,H5T_NATIVE_DOUBLE,enu_array.get_data());
 
-      H5Gclose (root_id);
-      H5Fclose (file_id);
+        // write the zenith range
+        hsize_t costhdims[1]={costh_array.extent(0)};
+        if(H5LTmake_dataset(file,"zenith_angles",1,costhdims,H5T_NATIVE_DOUBLE,costh_array.get_data()) < 0)
+          throw std::runtime_error("nuSQUIDSAtm::Error::Failed to write zenith_angles");
+        hsize_t energydims[1]={enu_array.extent(0)};
+        if(H5LTmake_dataset(file,"energy_range",1,energydims,H5T_NATIVE_DOUBLE,enu_array.get_data()) < 0)
+          throw std::runtime_error("nuSQUIDSAtm::Error::Failed to write energy_range");
+        if(H5Fflush(file,H5F_SCOPE_GLOBAL) < 0)
+          throw std::runtime_error("nuSQUIDSAtm::Error::Failed to write to file " + filename);
+      }
 
       unsigned int i = 0;
       for(const BaseSQUIDS& nsq : nusq_array){
-- 
2.43.0


From e1b892fdf779d251bd2529e5a357f6ebcae3d039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 083/100] fix: damaged files of atmospheric states are refused,
 and leave the object unusable until another is read

---
 include/nuSQuIDS/nuSQuIDS.h | 51 +++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index faf49a2..eb6a45d 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1561,40 +1561,28 @@ class nuSQUIDSAtm {
     /// \details All contents are assumed to be saved to the \c root of the HDF5 file.
     /// @see WriteStateHDF5
     void ReadStateHDF5(std::string hdf5_filename){
-      hid_t file_id,group_id,root_id;
+      // the object can not be used until it has been read completely
+      iinistate = false;
+      inusquidsatm = false;
       // open HDF5 file
       H5File file(H5Fopen(hdf5_filename.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT));
       if (file < 0)
         throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: Unable to open file: " + hdf5_filename + ". No such file or directory");
-      root_id = H5Gopen(file, "/",H5P_DEFAULT);
-      group_id = root_id;
-
-      // read the zenith range dimension
-      hsize_t costhdims[1];
-      H5LTget_dataset_info(group_id, "zenith_angles", costhdims, nullptr, nullptr);
-
-      double data[costhdims[0]];
-      H5LTread_dataset_double(group_id, "zenith_angles", data);
-      costh_array.resize(std::vector<size_t> {static_cast<unsigned long>(costhdims[0])});
-      for (unsigned int i = 0; i < costhdims[0]; i ++)
-        costh_array[i] = data[i];
-
-      hsize_t energydims[1];
-      H5LTget_dataset_info(group_id, "energy_range", energydims, nullptr, nullptr);
-
-      double enu_data[energydims[0]];
-      H5LTread_dataset_double(group_id, "energy_range", enu_data);
-      enu_array.resize(std::vector<size_t>{static_cast<unsigned long>(energydims[0])});log_enu_array.resize(std::vector<size_t>{static_cast<unsigned long>(energydims[0])});
-      for (unsigned int i = 0; i < energydims[0]; i ++){
-        enu_array[i] = enu_data[i];
-        log_enu_array[i] = log(enu_data[i]);
-      }
 
-      H5Gclose(root_id);
+      // read the zenith range and the energies
+      readArrayH5(file,"zenith_angles",costh_array);
+      readArrayH5(file,"energy_range",enu_array);
+      if(costh_array.empty())
+        throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: No zenith angles in file: " + hdf5_filename);
+      log_enu_array.resize(std::vector<size_t>{enu_array.size()});
+      for (unsigned int i = 0; i < enu_array.size(); i ++)
+        log_enu_array[i] = log(enu_array[i]);
 
       // resize apropiately the nuSQUIDSAtm container vector
       nusq_array.clear();
-      nusq_array = std::vector<BaseSQUIDS>(costhdims[0]);
+      nusq_array = std::vector<BaseSQUIDS>(costh_array.size());
+      track_array.clear();
+      int_struct.reset();
 
       unsigned int i = 0;
       for(BaseSQUIDS& nsq : nusq_array){
@@ -1607,10 +1595,19 @@ class nuSQUIDSAtm {
           // re-use the shared cross sections
           nsq.ReadStateHDF5Internal(hdf5_filename,"/costh_"+std::to_string(costh_array[i]),int_struct);
         }
+        // all zeniths have to be parts of the same calculation
+        std::shared_ptr<EarthAtm::Track> track = std::dynamic_pointer_cast<EarthAtm::Track>(nsq.GetTrack());
+        if(not std::dynamic_pointer_cast<EarthAtm>(nsq.GetBody()) or not track)
+          throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: State in file " + hdf5_filename + " is not one of an atmospheric path");
+        const marray<double,1> energies = nsq.GetERange();
+        if(nsq.GetNumNeu() != GetNumNeu() or nsq.NT != nusq_array.front().NT or nsq.iinteraction != nusq_array.front().iinteraction or
+           (not enu_array.empty() and (energies.size() != enu_array.size() or not std::equal(energies.begin(),energies.end(),enu_array.begin()))))
+          throw std::runtime_error("nuSQUIDSAtm::ReadStateHDF5: States in file " + hdf5_filename + " do not belong together");
+        track_array.push_back(track);
         i++;
       }
       earth_atm = std::dynamic_pointer_cast<EarthAtm>(nusq_array.front().GetBody());
-      assert(earth_atm);
+      ncs = nusq_array.front().GetNeutrinoCrossSections();
 
       iinistate = true;
       inusquidsatm = true;
-- 
2.43.0


From 3f3a8a4410d7959112895755f99316655d7fd6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:56 +0000
Subject: [PATCH 084/100] fix: interactions without tables are not used when
 the default cross sections can not be loaded

---
 src/nuSQuIDS.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nuSQuIDS.cpp b/src/nuSQuIDS.cpp
index 00a672b..527bb02 100644
--- a/src/nuSQuIDS.cpp
+++ b/src/nuSQuIDS.cpp
@@ -1039,11 +1039,11 @@ void nuSQUIDS::InitializeInteractions(){
   
   // if we don't already have cached data, create it
   if ( !int_struct ) {
-    int_struct.reset(new InteractionStructure);
     // initialize cross section object if we don't have one
     if ( ncs == nullptr) {
       ncs = std::make_shared<CrossSectionLibrary>(loadDefaultCrossSections());
     } // else we assume the user has already inintialized the object if not throw error.
+    int_struct.reset(new InteractionStructure);
     
     //We have to figure out what cross sections we are using. 
     //We would prefer to use separate ones for protons and neutrons, but it is 
-- 
2.43.0


From 0881913cfbad549d45bf5482b74947a1eabd0a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:50 +0000
Subject: [PATCH 085/100] fix: buffers of the interactions have the alignment
 which is promised of them

---
 include/nuSQuIDS/nuSQuIDS.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index eb6a45d..859a82c 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -404,10 +404,10 @@ protected:
     ///Total size of interaction_cache_store
     size_t interaction_cache_store_size;
   
-    marray<double,3> nc_factors;
-    marray<double,2> tau_hadlep_decays;
-    marray<double,2> tau_lep_decays;
-    marray<double,1> gr_factors;
+    marray<double,3,aligned_allocator<double>> nc_factors{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
+    marray<double,2,aligned_allocator<double>> tau_hadlep_decays{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
+    marray<double,2,aligned_allocator<double>> tau_lep_decays{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
+    marray<double,1,aligned_allocator<double>> gr_factors{aligned_allocator<double>(log2(preferred_alignment*sizeof(double)))};
   
     ///Initialize the interaction cahce data structures to the corretc sizes for
     ///the current problem.
-- 
2.43.0


From 9182e20f72127d099f338d117c249fb0423b46de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:06 +0000
Subject: [PATCH 086/100] fix: a parallel evolution which can not be started
 leaves the progress bar as it was

---
 include/nuSQuIDS/nuSQuIDS.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 859a82c..328dd7d 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1282,8 +1282,13 @@ class nuSQUIDSAtm {
         }
       }
       else{
-        bool overrideProgressBar=progressbar;
-        Set_ProgressBar(false);
+        //switches the progress bars of the zeniths off while they are evolved
+        struct progressBarOverride{
+          nuSQUIDSAtm& atm;
+          const bool value;
+          progressBarOverride(nuSQUIDSAtm& atm):atm(atm),value(atm.progressbar){ atm.Set_ProgressBar(false); }
+          ~progressBarOverride(){ atm.Set_ProgressBar(value); }
+        } overrideProgressBar(*this);
         ThreadPool tpool(evalThreads);
         std::vector<std::future<void>> tasks;
         tasks.reserve(nusq_array.size());
@@ -1292,10 +1297,9 @@ class nuSQUIDSAtm {
         unsigned int i = 0;
         for(const auto& task : tasks){
           task.wait();
-          if(overrideProgressBar)
+          if(overrideProgressBar.value)
             std::cout << "cos(th) = " + std::to_string(costh_array[i++]) << " complete" << std::endl;
         }
-        Set_ProgressBar(overrideProgressBar);
         for(auto& task : tasks)
           task.get(); //report any failure
       }
-- 
2.43.0


From 8cdcba337a8b7ae7883fbb73cb6c446085fd4e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:19 +0000
Subject: [PATCH 087/100] fix: an atmospheric object whose reading failed takes
 no initial state

---
 include/nuSQuIDS/nuSQuIDS.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nuSQuIDS/nuSQuIDS.h b/include/nuSQuIDS/nuSQuIDS.h
index 328dd7d..73e3873 100644
--- a/include/nuSQuIDS/nuSQuIDS.h
+++ b/include/nuSQuIDS/nuSQuIDS.h
@@ -1200,6 +1200,8 @@ class nuSQUIDSAtm {
     /// while if the mass basis is used then the first entries correspond to the active
     /// mass eigenstates.
     void Set_initial_state(const marray<double,3>& ini_flux, Basis basis=flavor){
+      if(not inusquidsatm)
+        throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
       if(ini_flux.extent(0) != costh_array.extent(0))
         throw std::runtime_error("nuSQUIDSAtm::Error::First dimension of input array is incorrect.");
       if(ini_flux.extent(1) != enu_array.extent(0))
@@ -1231,6 +1233,8 @@ class nuSQUIDSAtm {
     /// while if the mass basis is used then the first entries correspond to the active
     /// mass eigenstates.
     void Set_initial_state(const marray<double,4>& ini_flux, Basis basis=flavor){
+      if(not inusquidsatm)
+        throw std::runtime_error("nuSQUIDSAtm::Error::nuSQUIDSAtm not initialized.");
       if(ini_flux.extent(0) != costh_array.extent(0))
         throw std::runtime_error(
             "nuSQUIDSAtm::Error::First dimension of input array is incorrect.");
-- 
2.43.0


From b80714f8ad9c2c40ae88c1ed35055c6e17e8b0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:40 +0000
Subject: [PATCH 088/100] fix: SetAtmosphereHeight of the Python interface sets
 the height

---
 resources/python/src/nuSQUIDSpy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/python/src/nuSQUIDSpy.cpp b/resources/python/src/nuSQUIDSpy.cpp
index e0a9763..4060463 100644
--- a/resources/python/src/nuSQUIDSpy.cpp
+++ b/resources/python/src/nuSQUIDSpy.cpp
@@ -441,7 +441,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def(init<std::string>())
     .def("GetRadius",&EarthAtm::GetRadius)
     .def("GetAtmosphereHeight",&EarthAtm::GetAtmosphereHeight)
-    .def("SetAtmosphereHeight",&EarthAtm::GetAtmosphereHeight)
+    .def("SetAtmosphereHeight",&EarthAtm::SetAtmosphereHeight)
     .def("MakeTrack",&EarthAtm::MakeTrack)
     .def("MakeTrackWithCosine",&EarthAtm::MakeTrackWithCosine)
     ;
-- 
2.43.0


From 3c7a4377315edfd672bac24b84b8ab8ee7cd4ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:40 +0000
Subject: [PATCH 089/100] fix: arrays of the other byte order keep their values
 from Python

---
 resources/python/src/nuSQUIDSpy.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/resources/python/src/nuSQUIDSpy.h b/resources/python/src/nuSQUIDSpy.h
index 307187d..4d460ed 100644
--- a/resources/python/src/nuSQUIDSpy.h
+++ b/resources/python/src/nuSQUIDSpy.h
@@ -128,7 +128,10 @@ struct marray_from_python{
   }
 
   static void construct(PyObject* obj_ptr, boost::python::converter::rvalue_from_python_stage1_data* data){
-    PyArrayObject* numpy_array=PyArray_GETCONTIGUOUS((PyArrayObject*)obj_ptr);
+    // the elements are read directly below, so they must be aligned and in native byte order
+    PyArrayObject* numpy_array=(PyArrayObject*)PyArray_FROM_OF(obj_ptr,NPY_ARRAY_CARRAY_RO|NPY_ARRAY_NOTSWAPPED);
+    if(!numpy_array)
+      boost::python::throw_error_already_set();
     // get numpy array shape and create marray object
 #ifdef NPY_1_7_API_VERSION
     npy_intp* array_shape = PyArray_SHAPE(numpy_array);
-- 
2.43.0


From ef27e3c4ce2407cc65ec3275d24c7ea5b9b349ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:40 +0000
Subject: [PATCH 090/100] fix: an empty array from Python does not crash

---
 resources/python/src/nuSQUIDSpy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resources/python/src/nuSQUIDSpy.h b/resources/python/src/nuSQUIDSpy.h
index 4d460ed..94b4d9a 100644
--- a/resources/python/src/nuSQUIDSpy.h
+++ b/resources/python/src/nuSQUIDSpy.h
@@ -152,6 +152,10 @@ struct marray_from_python{
     marray<double,Dim>* oarray=(marray<double,Dim>*)storage;
 
    oarray->resize(dimensions);
+    if(oarray->size()==0){ // there is nothing to copy
+      Py_XDECREF(numpy_array);
+      return;
+    }
     auto it = oarray->begin();
 
     // create numpy iterator
-- 
2.43.0


From aa6025fb0f535584ef9a4fd58dbaa375fc4df70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:40 +0000
Subject: [PATCH 091/100] fix: a sequence which fails to become a mask is an
 error in Python

---
 resources/python/src/nuSQUIDSpy.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/resources/python/src/nuSQUIDSpy.cpp b/resources/python/src/nuSQUIDSpy.cpp
index 4060463..90d6047 100644
--- a/resources/python/src/nuSQUIDSpy.cpp
+++ b/resources/python/src/nuSQUIDSpy.cpp
@@ -41,14 +41,18 @@ struct ListToVectorBool {
         void* storage = ((boost::python::converter::rvalue_from_python_storage<std::vector<bool>>*)data)->storage.bytes;
         new (storage) std::vector<bool>();
         std::vector<bool>* vec = (std::vector<bool>*)storage;
-        int len = PySequence_Size(obj_ptr);
+        data->convertible = storage;
+        Py_ssize_t len = PySequence_Size(obj_ptr);
+        if (len < 0) boost::python::throw_error_already_set();
         vec->reserve(len);
-        for (int i = 0; i < len; ++i) {
+        for (Py_ssize_t i = 0; i < len; ++i) {
             PyObject* item = PySequence_GetItem(obj_ptr, i);
-            vec->push_back(PyObject_IsTrue(item));
+            if (!item) boost::python::throw_error_already_set();
+            int value = PyObject_IsTrue(item);
             Py_DECREF(item);
+            if (value < 0) boost::python::throw_error_already_set();
+            vec->push_back(value);
         }
-        data->convertible = storage;
     }
 };
 
-- 
2.43.0


From bff980daf2d24e2d39462ac5a2c7f6355f20ab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:40 +0000
Subject: [PATCH 092/100] fix: the tracks made in Python are accepted by the
 bodies

---
 resources/python/src/nuSQUIDSpy.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/resources/python/src/nuSQUIDSpy.cpp b/resources/python/src/nuSQUIDSpy.cpp
index 90d6047..a561e37 100644
--- a/resources/python/src/nuSQUIDSpy.cpp
+++ b/resources/python/src/nuSQUIDSpy.cpp
@@ -330,7 +330,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def("ye",&Vacuum::ye)
     ;
 
-    class_<Vacuum::Track, std::shared_ptr<Vacuum::Track> >("Track", init<double>())
+    class_<Vacuum::Track, bases<Body::Track>, std::shared_ptr<Vacuum::Track> >("Track", init<double>())
     .def(init<double,double>())
     .def("GetInitialX",&Vacuum::Track::GetInitialX)
     .def("GetFinalX",&Vacuum::Track::GetFinalX)
@@ -350,7 +350,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def("ye",&ConstantDensity::ye)
     ;
 
-    class_<ConstantDensity::Track, std::shared_ptr<ConstantDensity::Track> >("Track", init<double>())
+    class_<ConstantDensity::Track, bases<Body::Track>, std::shared_ptr<ConstantDensity::Track> >("Track", init<double>())
     .def(init<double,double>())
     .def("GetInitialX",&ConstantDensity::Track::GetInitialX)
     .def("GetFinalX",&ConstantDensity::Track::GetFinalX)
@@ -368,7 +368,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     = class_<VariableDensity, bases<Body>, std::shared_ptr<VariableDensity> >("VariableDensity", init< std::vector<double>,std::vector<double>,std::vector<double> >())
     ;
 
-    class_<VariableDensity::Track, std::shared_ptr<VariableDensity::Track> >("Track", init<double>())
+    class_<VariableDensity::Track, bases<Body::Track>, std::shared_ptr<VariableDensity::Track> >("Track", init<double>())
     .def(init<double,double>())
     .def("GetInitialX",&VariableDensity::Track::GetInitialX)
     .def("GetFinalX",&VariableDensity::Track::GetFinalX)
@@ -387,7 +387,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def(init<std::string>())
     ;
 
-    class_<Earth::Track, std::shared_ptr<Earth::Track> >("Track", init<double>())
+    class_<Earth::Track, bases<Body::Track>, std::shared_ptr<Earth::Track> >("Track", init<double>())
     .def(init<double,double,double>())
     .def("GetInitialX",&Earth::Track::GetInitialX)
     .def("GetFinalX",&Earth::Track::GetFinalX)
@@ -406,7 +406,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def(init<std::string>())
     ;
 
-    class_<Sun::Track, std::shared_ptr<Sun::Track> >("Track", init<double>())
+    class_<Sun::Track, bases<Body::Track>, std::shared_ptr<Sun::Track> >("Track", init<double>())
     .def(init<double,double>())
     .def("GetInitialX",&Sun::Track::GetInitialX)
     .def("GetFinalX",&Sun::Track::GetFinalX)
@@ -425,7 +425,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def(init<std::string>())
     ;
 
-    class_<SunASnu::Track, std::shared_ptr<SunASnu::Track> >("Track", init<double>())
+    class_<SunASnu::Track, bases<Body::Track>, std::shared_ptr<SunASnu::Track> >("Track", init<double>())
     .def(init<double,double>())
     .def(init<double,double,double>())
     .def("GetInitialX",&SunASnu::Track::GetInitialX)
@@ -450,7 +450,7 @@ BOOST_PYTHON_MODULE(nuSQuIDS)
     .def("MakeTrackWithCosine",&EarthAtm::MakeTrackWithCosine)
     ;
 
-    class_<EarthAtm::Track, std::shared_ptr<EarthAtm::Track> >("Track", init<EarthAtm::Track>())
+    class_<EarthAtm::Track, bases<Body::Track>, std::shared_ptr<EarthAtm::Track> >("Track", init<EarthAtm::Track>())
     .def(init<double,double,double>())
     .def(init<double,double,double,double>())
     .def("GetInitialX",&EarthAtm::Track::GetInitialX)
-- 
2.43.0


From 1145efaf1bfda437e1dfd9a9f593cbd1a65d5fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:40 +0000
Subject: [PATCH 093/100] fix: the keyword save_cross_sections can be used from
 Python

---
 resources/python/src/nuSQUIDSpy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/python/src/nuSQUIDSpy.h b/resources/python/src/nuSQUIDSpy.h
index 94b4d9a..1aff0cc 100644
--- a/resources/python/src/nuSQUIDSpy.h
+++ b/resources/python/src/nuSQUIDSpy.h
@@ -302,7 +302,7 @@ template<typename BaseType, typename = typename std::enable_if<std::is_base_of<n
       class_object->def("EvolveState",&BaseType::EvolveState);
       class_object->def("GetERange",&BaseType::GetERange);
       class_object->def("WriteStateHDF5",&BaseType::WriteStateHDF5,
-          WriteStateHDF5Overload<BaseType>(args("hdf5_filename","group"," save_cross_sections","cross_section_grp_loc","overwrite"),
+          WriteStateHDF5Overload<BaseType>(args("hdf5_filename","group","save_cross_sections","cross_section_grp_loc","overwrite"),
             "Writes the current object into an HDF5 file."));
       class_object->def("ReadStateHDF5",&BaseType::ReadStateHDF5,
           ReadStateHDF5Overload<BaseType>(args("hdf5_filename","group","cross_section_grp_loc"),
-- 
2.43.0


From a6a2714edbe08297399820af01c0d83ce088f0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:40 +0000
Subject: [PATCH 094/100] fix: GetState of the Python interface is called as it
 is declared

---
 resources/python/src/nuSQUIDSpy.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/resources/python/src/nuSQUIDSpy.h b/resources/python/src/nuSQUIDSpy.h
index 1aff0cc..70cd55e 100644
--- a/resources/python/src/nuSQUIDSpy.h
+++ b/resources/python/src/nuSQUIDSpy.h
@@ -276,6 +276,7 @@ public boost::python::detail::overloads_common<name<T>>{ \
 MAKE_OVERLOAD_TEMPLATE(WriteStateHDF5Overload,WriteStateHDF5,1,5)
 MAKE_OVERLOAD_TEMPLATE(ReadStateHDF5Overload,ReadStateHDF5,1,3)
 MAKE_OVERLOAD_TEMPLATE(SetInitialStateH5Overload,Set_initial_state,1,2)
+MAKE_OVERLOAD_TEMPLATE(GetStateOverload,GetState,1,2)
 
 // nuSQUIDSpy module definitions
 template<typename BaseType, typename = typename std::enable_if<std::is_base_of<nuSQUIDS,BaseType>::value>::type >
@@ -317,8 +318,8 @@ template<typename BaseType, typename = typename std::enable_if<std::is_base_of<n
       class_object->def("EvalMassAtNode",(double(BaseType::*)(unsigned int,unsigned int,unsigned int) const)&BaseType::EvalMassAtNode);
       class_object->def("EvalFlavorAtNode",(double(BaseType::*)(unsigned int,unsigned int,unsigned int) const)&BaseType::EvalFlavorAtNode);
       class_object->def("GetHamiltonian",&BaseType::GetHamiltonian);
-      class_object->def("GetState",(const squids::SU_vector&(BaseType::*)(unsigned int))&BaseType::GetState, return_value_policy<copy_const_reference>());
-      class_object->def("GetState",(const squids::SU_vector&(BaseType::*)(unsigned int, unsigned int))&BaseType::GetState, return_value_policy<copy_const_reference>());
+      class_object->def("GetState",(const squids::SU_vector&(BaseType::*)(unsigned int, unsigned int) const)&BaseType::GetState,
+          GetStateOverload<BaseType>()[return_value_policy<copy_const_reference>()]);
       class_object->def("Set_EvolLowPassCutoff", &BaseType::Set_EvolLowPassCutoff);
       class_object->def("Set_EvolLowPassScale", &BaseType::Set_EvolLowPassScale);
       class_object->def("Set_h_min",&BaseType::Set_h_min);
-- 
2.43.0


From be4e0d7849bd544508672c6e9d8facac9d7e0277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:04 +0000
Subject: [PATCH 095/100] fix: the first radius of the solar tables is read

---
 resources/user_contributions/SolarTransitions/SolarModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/user_contributions/SolarTransitions/SolarModel.cpp b/resources/user_contributions/SolarTransitions/SolarModel.cpp
index 5b32c89..8d83e84 100644
--- a/resources/user_contributions/SolarTransitions/SolarModel.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarModel.cpp
@@ -10,7 +10,7 @@ void SolarModel::splineinit(){
 
 	unsigned int arraysize = fluxR.extent(0);
 	double XfluxRarr[arraysize];
-  	for(unsigned int j = 1; j < arraysize; j++){
+  	for(unsigned int j = 0; j < arraysize; j++){
     	XfluxRarr[j] = fluxR[j][0];
   	}
 
-- 
2.43.0


From aaa4407c77a3e29fd3954f8366dad0b8f23d3617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:04 +0000
Subject: [PATCH 096/100] fix: incomplete solar tables are refused

---
 resources/user_contributions/SolarTransitions/SolarModel.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resources/user_contributions/SolarTransitions/SolarModel.cpp b/resources/user_contributions/SolarTransitions/SolarModel.cpp
index 8d83e84..86eb999 100644
--- a/resources/user_contributions/SolarTransitions/SolarModel.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarModel.cpp
@@ -9,6 +9,8 @@ void SolarModel::splineinit(){
 	marray<double,2> fluxR = quickread(rad);
 
 	unsigned int arraysize = fluxR.extent(0);
+	if(arraysize < 2 || fluxR.extent(1) < num_components+1)
+		throw std::runtime_error("SolarModel::Error: incomplete table " + rad);
 	double XfluxRarr[arraysize];
   	for(unsigned int j = 0; j < arraysize; j++){
     	XfluxRarr[j] = fluxR[j][0];
@@ -30,6 +32,8 @@ void SolarModel::splineinit(){
 	}
 	    marray<double,2> spectrum_table = quickread(datapath + "/NuSpec/" + spectrum_filename[FluxType(i)]);
 	    unsigned int arraysize_ = spectrum_table.extent(0);
+	    if(arraysize_ < 2 || spectrum_table.extent(1) < 2)
+	    	throw std::runtime_error("SolarModel::Error: incomplete table " + spectrum_filename[FluxType(i)]);
 	    Espline[i].reset(gsl_spline_alloc (gsl_interp_linear, arraysize_),[](gsl_spline* t){gsl_spline_free(t);});
 	    double ESpectrum[arraysize_]; double FSpectrum[arraysize_];
 	    for(unsigned int j = 0; j < arraysize_ ; j++){
-- 
2.43.0


From be925087fb7c2d238f02b28c8f0a6d0b463fc4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:04 +0000
Subject: [PATCH 097/100] fix: the center and the surface of the solar model
 can be asked for

---
 .../SolarTransitions/SolarModel.cpp              | 16 ++++++++++++----
 .../SolarTransitions/SolarModel.h                |  2 ++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/resources/user_contributions/SolarTransitions/SolarModel.cpp b/resources/user_contributions/SolarTransitions/SolarModel.cpp
index 86eb999..6049dee 100644
--- a/resources/user_contributions/SolarTransitions/SolarModel.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarModel.cpp
@@ -1,4 +1,5 @@
 #include "SolarModel.h"
+#include <algorithm>
 
 using namespace std;
 using namespace nusquids;
@@ -44,6 +45,13 @@ void SolarModel::splineinit(){
 	}
 }
 
+double SolarModel::radial(double R, FluxType type) const{
+	// the tables do not reach the very center and surface
+	const gsl_spline* table = Rspline[type].get();
+	double r = std::min(std::max(R*Rsun,table->x[0]),table->x[table->size-1]);
+	return gsl_spline_eval(table,r,Racc[type].get());
+}
+
 double SolarModel::nuFlux(double R, double E, FluxType type) const{
 	if (R > 1.0 || R < 0.0){
     	throw std::runtime_error("Invalid R, must be between Rmin and Rmax");
@@ -52,10 +60,10 @@ double SolarModel::nuFlux(double R, double E, FluxType type) const{
 		return 0.0;
   	}
   	if ( spectrum_limits.find(type)->second.size() == 1 ){
-    	return gsl_spline_eval(Rspline[type].get(),R*Rsun,Racc[type].get());
+    	return radial(R,type);
  	} else if ( spectrum_limits.find(type)->second.size() == 2){
     if ( E > spectrum_limits.find(type)->second.front() and E < spectrum_limits.find(type)->second.back() )
-    	return gsl_spline_eval(Rspline[type].get(),R*Rsun,Racc[type].get())*gsl_spline_eval(Espline[type].get(),E,Eacc[type].get());
+    	return radial(R,type)*gsl_spline_eval(Espline[type].get(),E,Eacc[type].get());
     else
     	return 0.;
     } else{
@@ -67,14 +75,14 @@ double SolarModel::eDensity(double R) const {
 	if (R > 1.0 || R < 0.0){
     throw std::runtime_error("Invalid R, must be between 0 and 1.");
   }
-	return gsl_spline_eval(Rspline[Electron].get(),R*Rsun,Racc[Electron].get());
+	return radial(R,Electron);
 }
 
 double SolarModel::DMDensity(double R) const {
 	if (R > 1.0 || R < 0.0){
 		throw std::runtime_error("Invalid R, must be between 0 and 1.");
   }
-	return gsl_spline_eval(Rspline[DM].get(),R*Rsun,Racc[DM].get());
+	return radial(R,DM);
 }
 
 unsigned int SolarModel::NumComp() const {
diff --git a/resources/user_contributions/SolarTransitions/SolarModel.h b/resources/user_contributions/SolarTransitions/SolarModel.h
index ac83d20..27cc51e 100644
--- a/resources/user_contributions/SolarTransitions/SolarModel.h
+++ b/resources/user_contributions/SolarTransitions/SolarModel.h
@@ -50,6 +50,8 @@ class SolarModel {
     std::string SM;
     ///\brief Spline initializer helper function
 		void splineinit();
+    ///\brief Interpolates a column of the radial table at a fraction of the solar radius
+		double radial(double R, FluxType type) const;
 	public:
 		SolarModel(std::string solarmodel):SM(solarmodel){
       Racc.resize(num_components);Rspline.resize(num_components);
-- 
2.43.0


From ab34b8ba508ecf512e7a12c9bf82b5a71d593ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:04 +0000
Subject: [PATCH 098/100] fix: solar probabilities use the mixing parameters
 which are set

---
 .../SolarTransitions/SolarProbabilities.cpp              | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
index 6cc3694..7b9b9cd 100644
--- a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
@@ -28,10 +28,15 @@ double SOP::SolarOscillationProbability(double E,double r) const {
 SU_vector SOP::Hamiltonian(double E, double r) const {
 
   double electron_number_density = solar_model->eDensity(r);
-  SU_vector H = DM2*(1./(2.*E));
+  // the parameters may have changed since the object was made
+  SU_vector H(numneu);
+  for(unsigned int i = 1; i < numneu; i++)
+    H += SU_vector::Projector(numneu,i)*(params.GetEnergyDifference(i)/(2.*E));
   double CC_prefactor = HI_constants;// defined in nusquids
   double CC = CC_prefactor*electron_number_density;
-  H += CC*b1_proj[neutrino][nue];
+  SU_vector nue_projector = SU_vector::Projector(numneu,nue);
+  nue_projector.RotateToB1(params);
+  H += CC*nue_projector;
 
   return std::move(H);
 }
-- 
2.43.0


From 0e4f8cac4f48cb348391d683d5a54e5e44d8bebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:04 +0000
Subject: [PATCH 099/100] fix: solar probabilities follow the order of the
 masses

---
 .../SolarTransitions/SolarProbabilities.cpp              | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
index 7b9b9cd..e90c0d7 100644
--- a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
@@ -1,4 +1,5 @@
 #include "SolarProbabilities.h"
+#include <algorithm>
 
 using namespace squids;
 using namespace nusquids;
@@ -17,10 +18,16 @@ double SOP::SolarOscillationProbability(double E,double r) const {
 
   auto UPMNS = GetTransformationMatrix();
 
+  // a neutrino leaves the Sun in the mass state which is in the same place of the order
+  std::vector<std::pair<double,unsigned int>> mass_order(1,std::make_pair(0.,0u));
+  for(unsigned int i = 1; i < numneu; i++)
+    mass_order.push_back(std::make_pair(params.GetEnergyDifference(i),i));
+  std::sort(mass_order.begin(),mass_order.end());
+
   double osc_prob = 0;
   for(unsigned int i = 0; i < numneu; i++){
     osc_prob += gsl_complex_abs2(gsl_matrix_complex_get(eigensyst.second.get(),nue,i))*\
-                gsl_complex_abs2(gsl_matrix_complex_get(UPMNS.get(),nue,i));
+                gsl_complex_abs2(gsl_matrix_complex_get(UPMNS.get(),nue,mass_order[i].second));
   }
   return osc_prob;
 }
-- 
2.43.0


From 6903c609865c2d793202812526c17e3f8e03f16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:04 +0000
Subject: [PATCH 100/100] fix: solar fluxes without a solar model are refused

---
 .../user_contributions/SolarTransitions/SolarProbabilities.cpp  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
index e90c0d7..9bce200 100644
--- a/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
+++ b/resources/user_contributions/SolarTransitions/SolarProbabilities.cpp
@@ -66,6 +66,8 @@ double SOP::PeeSquare(double E) const{
 }
 
 double SOP::RadialIntegratedFluxes(double E) const{
+  if (solar_model == nullptr)
+    throw std::runtime_error("No solar model set");
   return integrate([&](double r){
               double sum_flux = 0.;
               for ( unsigned int i = 0; i < solar_model->NumComp(); i++){
-- 
2.43.0

