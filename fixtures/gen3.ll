
target datalayout = "e-m:e-p270:32:32-p271:32:32-p272:64:64-i64:64-f80:128-n8:16:32:64-S128"
target triple = "x86_64-pc-linux-gnu"

%"class.std::__1::vector" = type { i32*, i32*, i32* }

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z2h0i(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %x) {
entry:
  %result.ptr = alloca i8*, align 8
  %x.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %cleanup.dest.slot = alloca i32, align 4
  %ref.tmp2 = alloca i32, align 4
  %ref.tmp5 = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %x, i32* %x.addr, align 4
  %i2 = load i32, i32* %x.addr, align 4
  %mul = mul nsw i32 %i2, 2
  store i32 %mul, i32* %t, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  %i3 = load i32, i32* %x.addr, align 4
  %cmp = icmp sgt i32 2, %i3
  br i1 %cmp, label %bb, label %bb11

if.then:                                          ; preds = %bb
  %i4 = load i32, i32* %x.addr, align 4
  %add = add nsw i32 %i4, 2
  store i32 %add, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

if.else:                                          ; preds = %bb11
  store i32 0, i32* %t, align 4
  br label %if.end

if.end:                                           ; preds = %if.else
  br label %while.cond

while.cond:                                       ; preds = %while.body, %if.end
  %i5 = load i32, i32* %i, align 4
  %i6 = load i32, i32* %x.addr, align 4
  %cmp1 = icmp slt i32 %i5, %i6
  br i1 %cmp1, label %bb12, label %bb13

while.body:                                       ; preds = %bb12
  %i7 = load i32, i32* %t, align 4
  %div = sdiv i32 %i7, 2
  store i32 %div, i32* %ref.tmp2, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp2)
  %i8 = load i32, i32* %i, align 4
  %add3 = add nsw i32 %i8, 1
  store i32 %add3, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb13
  %i9 = load i32, i32* %x.addr, align 4
  %add4 = add nsw i32 %i9, 0
  store i32 %add4, i32* %t, align 4
  %i10 = load i32, i32* %x.addr, align 4
  %mul6 = mul nsw i32 %i10, 3
  store i32 %mul6, i32* %ref.tmp5, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp5)
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

cleanup:                                          ; preds = %while.end, %if.then
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb14, label %bb15

nrvo.unused:                                      ; preds = %bb15
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb14, %nrvo.unused
  ret void

bb:                                               ; preds = %entry
  br label %if.then

bb11:                                             ; preds = %entry
  br label %if.else

bb12:                                             ; preds = %while.cond
  br label %while.body

bb13:                                             ; preds = %while.cond
  br label %while.end

bb14:                                             ; preds = %cleanup
  br label %nrvo.skipdtor

bb15:                                             ; preds = %cleanup
  br label %nrvo.unused
}

declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24)) unnamed_addr

declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24), i32* nonnull align 4 dereferenceable(4))

; Function Attrs: nounwind
declare void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24)) unnamed_addr

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2h1iii(i32 %y, i32 %x, i32 %a) {
entry:
  %y.addr = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %a.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %i = alloca i32, align 4
  %j = alloca i32, align 4
  store i32 %y, i32* %y.addr, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 %a, i32* %a.addr, align 4
  %i1 = load i32, i32* %y.addr, align 4
  %rem = srem i32 %i1, 2
  store i32 %rem, i32* %t, align 4
  store i32 0, i32* %i, align 4
  store i32 0, i32* %j, align 4
  %i2 = load i32, i32* %a.addr, align 4
  %rem1 = srem i32 %i2, 2
  store i32 %rem1, i32* %t, align 4
  store i32 0, i32* %t, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i3 = load i32, i32* %j, align 4
  %cmp = icmp slt i32 %i3, 3
  br i1 %cmp, label %bb, label %bb11

for.body:                                         ; preds = %bb
  %i4 = load i32, i32* %t, align 4
  %i5 = load i32, i32* %j, align 4
  %add = add nsw i32 %i4, %i5
  store i32 %add, i32* %t, align 4
  %i6 = load i32, i32* %t, align 4
  %i7 = load i32, i32* %y.addr, align 4
  %rem2 = srem i32 %i7, 2
  %add3 = add nsw i32 %i6, %rem2
  store i32 %add3, i32* %t, align 4
  br label %for.inc

for.inc:                                          ; preds = %for.body
  %i8 = load i32, i32* %j, align 4
  %add4 = add nsw i32 %i8, 1
  store i32 %add4, i32* %j, align 4
  br label %for.cond

for.end:                                          ; preds = %bb11
  %i9 = load i32, i32* %t, align 4
  %i10 = load i32, i32* %a.addr, align 4
  %add5 = add nsw i32 %i9, %i10
  ret i32 %add5

bb:                                               ; preds = %for.cond
  br label %for.body

bb11:                                             ; preds = %for.cond
  br label %for.end
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z2h2ii(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %a, i32 %y) {
entry:
  %result.ptr = alloca i8*, align 8
  %a.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %cleanup.dest.slot = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %ref.tmp2 = alloca i32, align 4
  %ref.tmp5 = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %a, i32* %a.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  %i2 = load i32, i32* %y.addr, align 4
  store i32 %i2, i32* %s, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  %i3 = load i32, i32* %a.addr, align 4
  %cmp = icmp sgt i32 1, %i3
  br i1 %cmp, label %bb, label %bb14

if.then:                                          ; preds = %bb
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

if.else:                                          ; preds = %bb14
  %i4 = load i32, i32* %y.addr, align 4
  %i5 = load i32, i32* %a.addr, align 4
  %add = add nsw i32 %i4, %i5
  store i32 %add, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  br label %if.end

if.end:                                           ; preds = %if.else
  br label %while.cond

while.cond:                                       ; preds = %while.body, %if.end
  %i6 = load i32, i32* %i, align 4
  %i7 = load i32, i32* %y.addr, align 4
  %cmp1 = icmp slt i32 %i6, %i7
  br i1 %cmp1, label %bb15, label %bb16

while.body:                                       ; preds = %bb15
  %i8 = load i32, i32* %i, align 4
  %div = sdiv i32 %i8, 3
  store i32 %div, i32* %ref.tmp2, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp2)
  %i9 = load i32, i32* %s, align 4
  %i10 = load i32, i32* %i, align 4
  %add3 = add nsw i32 %i9, %i10
  store i32 %add3, i32* %s, align 4
  %i11 = load i32, i32* %i, align 4
  %add4 = add nsw i32 %i11, 1
  store i32 %add4, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb16
  %i12 = load i32, i32* %s, align 4
  %i13 = load i32, i32* %y.addr, align 4
  %add6 = add nsw i32 %i12, %i13
  store i32 %add6, i32* %ref.tmp5, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp5)
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

cleanup:                                          ; preds = %while.end, %if.then
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb17, label %bb18

nrvo.unused:                                      ; preds = %bb18
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb17, %nrvo.unused
  ret void

bb:                                               ; preds = %entry
  br label %if.then

bb14:                                             ; preds = %entry
  br label %if.else

bb15:                                             ; preds = %while.cond
  br label %while.body

bb16:                                             ; preds = %while.cond
  br label %while.end

bb17:                                             ; preds = %cleanup
  br label %nrvo.skipdtor

bb18:                                             ; preds = %cleanup
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2h3NSt3__16vectorIiNS_9allocatorIiEEEE(%"class.std::__1::vector"* %l) {
entry:
  %retval = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %ref.tmp1 = alloca i32, align 4
  %ref.tmp4 = alloca i32, align 4
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv = trunc i64 %call to i32
  %cmp = icmp sgt i32 1, %conv
  br i1 %cmp, label %bb, label %bb1

if.then:                                          ; preds = %bb
  store i32 0, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb1
  store i32 2, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  br label %if.end

if.end:                                           ; preds = %if.else
  %call2 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv3 = trunc i64 %call2 to i32
  %sub = sub nsw i32 2, %conv3
  store i32 %sub, i32* %ref.tmp1, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i32* nonnull align 4 dereferenceable(4) %ref.tmp1)
  store i32 -2, i32* %ref.tmp4, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i32* nonnull align 4 dereferenceable(4) %ref.tmp4)
  %call5 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv6 = trunc i64 %call5 to i32
  store i32 %conv6, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.end, %if.then
  %i = load i32, i32* %retval, align 4
  ret i32 %i

bb:                                               ; preds = %entry
  br label %if.then

bb1:                                              ; preds = %entry
  br label %if.else
}

declare i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24))

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z2h4i(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %y) {
entry:
  %result.ptr = alloca i8*, align 8
  %y.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %ref.tmp2 = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %y, i32* %y.addr, align 4
  %i2 = load i32, i32* %y.addr, align 4
  store i32 %i2, i32* %t, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  br label %while.cond

while.cond:                                       ; preds = %while.body, %entry
  %i3 = load i32, i32* %i, align 4
  %i4 = load i32, i32* %y.addr, align 4
  %cmp = icmp slt i32 %i3, %i4
  br i1 %cmp, label %bb, label %bb15

while.body:                                       ; preds = %bb
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %i)
  %i5 = load i32, i32* %y.addr, align 4
  %i6 = load i32, i32* %i, align 4
  %add = add nsw i32 %i5, %i6
  store i32 %add, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  %i7 = load i32, i32* %i, align 4
  %add1 = add nsw i32 %i7, 1
  store i32 %add1, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb15
  %i8 = load i32, i32* %y.addr, align 4
  %i9 = load i32, i32* %t, align 4
  %add3 = add nsw i32 %i8, %i9
  store i32 %add3, i32* %ref.tmp2, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp2)
  %i10 = load i32, i32* %y.addr, align 4
  %i11 = load i32, i32* %i, align 4
  %cmp4 = icmp sgt i32 %i10, %i11
  br i1 %cmp4, label %bb16, label %bb17

if.then:                                          ; preds = %bb16
  %i12 = load i32, i32* %t, align 4
  %add5 = add nsw i32 2, %i12
  store i32 %add5, i32* %t, align 4
  br label %if.end

if.end:                                           ; preds = %bb17, %if.then
  %i13 = load i32, i32* %t, align 4
  %i14 = load i32, i32* %y.addr, align 4
  %sub = sub nsw i32 %i13, %i14
  store i32 %sub, i32* %t, align 4
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb18, label %bb19

nrvo.unused:                                      ; preds = %bb19
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb18, %nrvo.unused
  ret void

bb:                                               ; preds = %while.cond
  br label %while.body

bb15:                                             ; preds = %while.cond
  br label %while.end

bb16:                                             ; preds = %while.end
  br label %if.then

bb17:                                             ; preds = %while.end
  br label %if.end

bb18:                                             ; preds = %if.end
  br label %nrvo.skipdtor

bb19:                                             ; preds = %if.end
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2h5iNSt3__16vectorIiNS_9allocatorIiEEEE(i32 %n, %"class.std::__1::vector"* %l) {
entry:
  %retval = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  %i1 = load i32, i32* %n.addr, align 4
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv = trunc i64 %call to i32
  %sub = sub nsw i32 %i1, %conv
  store i32 %sub, i32* %t, align 4
  store i32 0, i32* %i, align 4
  %i2 = load i32, i32* %t, align 4
  %call1 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv2 = trunc i64 %call1 to i32
  %sub3 = sub nsw i32 %i2, %conv2
  store i32 %sub3, i32* %t, align 4
  %i3 = load i32, i32* %n.addr, align 4
  %cmp = icmp sgt i32 %i3, 3
  br i1 %cmp, label %bb, label %bb23

if.then:                                          ; preds = %bb
  br label %while.cond

while.cond:                                       ; preds = %while.body, %if.then
  %i4 = load i32, i32* %i, align 4
  %conv4 = sext i32 %i4 to i64
  %call5 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %cmp6 = icmp ult i64 %conv4, %call5
  br i1 %cmp6, label %bb24, label %bb25

while.body:                                       ; preds = %bb24
  %i5 = load i32, i32* %t, align 4
  %i6 = load i32, i32* %i, align 4
  %conv7 = sext i32 %i6 to i64
  %call8 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 %conv7)
  %i7 = load i32, i32* %call8, align 4
  %sub9 = sub nsw i32 %i5, %i7
  store i32 %sub9, i32* %t, align 4
  %i8 = load i32, i32* %i, align 4
  %add = add nsw i32 %i8, 1
  store i32 %add, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb25
  br label %if.end22

if.else:                                          ; preds = %bb23
  %call10 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv11 = trunc i64 %call10 to i32
  %call12 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv13 = trunc i64 %call12 to i32
  %cmp14 = icmp slt i32 %conv11, %conv13
  br i1 %cmp14, label %bb26, label %bb27

land.lhs.true:                                    ; preds = %bb26
  %call15 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv16 = trunc i64 %call15 to i32
  %i9 = load i32, i32* %t, align 4
  %cmp17 = icmp sle i32 %conv16, %i9
  br i1 %cmp17, label %bb28, label %bb29

if.then18:                                        ; preds = %bb28
  %i10 = load i32, i32* %i, align 4
  %call19 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv20 = trunc i64 %call19 to i32
  %sub21 = sub nsw i32 %i10, %conv20
  store i32 %sub21, i32* %t, align 4
  %i11 = load i32, i32* %t, align 4
  store i32 %i11, i32* %retval, align 4
  br label %return

if.end:                                           ; preds = %bb29, %bb27
  br label %if.end22

if.end22:                                         ; preds = %if.end, %while.end
  store i32 1, i32* %i, align 4
  br label %while.cond23

while.cond23:                                     ; preds = %if.end30, %if.end22
  %i12 = load i32, i32* %i, align 4
  %i13 = load i32, i32* %n.addr, align 4
  %cmp24 = icmp slt i32 %i12, %i13
  br i1 %cmp24, label %bb30, label %bb31

while.body25:                                     ; preds = %bb30
  %i14 = load i32, i32* %i, align 4
  %i15 = load i32, i32* %t, align 4
  %cmp26 = icmp sle i32 %i14, %i15
  br i1 %cmp26, label %bb32, label %bb33

if.then27:                                        ; preds = %bb32
  %i16 = load i32, i32* %t, align 4
  store i32 %i16, i32* %retval, align 4
  br label %return

if.else28:                                        ; preds = %bb33
  %i17 = load i32, i32* %t, align 4
  %i18 = load i32, i32* %i, align 4
  %sub29 = sub nsw i32 %i17, %i18
  store i32 %sub29, i32* %t, align 4
  br label %if.end30

if.end30:                                         ; preds = %if.else28
  %i19 = load i32, i32* %i, align 4
  %add31 = add nsw i32 %i19, 1
  store i32 %add31, i32* %i, align 4
  br label %while.cond23

while.end32:                                      ; preds = %bb31
  %i20 = load i32, i32* %t, align 4
  %i21 = load i32, i32* %t, align 4
  %sub33 = sub nsw i32 %i20, %i21
  store i32 %sub33, i32* %retval, align 4
  br label %return

return:                                           ; preds = %while.end32, %if.then27, %if.then18
  %i22 = load i32, i32* %retval, align 4
  ret i32 %i22

bb:                                               ; preds = %entry
  br label %if.then

bb23:                                             ; preds = %entry
  br label %if.else

bb24:                                             ; preds = %while.cond
  br label %while.body

bb25:                                             ; preds = %while.cond
  br label %while.end

bb26:                                             ; preds = %if.else
  br label %land.lhs.true

bb27:                                             ; preds = %if.else
  br label %if.end

bb28:                                             ; preds = %land.lhs.true
  br label %if.then18

bb29:                                             ; preds = %land.lhs.true
  br label %if.end

bb30:                                             ; preds = %while.cond23
  br label %while.body25

bb31:                                             ; preds = %while.cond23
  br label %while.end32

bb32:                                             ; preds = %while.body25
  br label %if.then27

bb33:                                             ; preds = %while.body25
  br label %if.else28
}

declare nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24), i64)

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z2h6i(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %y) {
entry:
  %result.ptr = alloca i8*, align 8
  %y.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %ref.tmp3 = alloca i32, align 4
  %ref.tmp4 = alloca i32, align 4
  %ref.tmp8 = alloca i32, align 4
  %cleanup.dest.slot = alloca i32, align 4
  %ref.tmp11 = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %y, i32* %y.addr, align 4
  store i32 3, i32* %t, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i2 = load i32, i32* %i, align 4
  %i3 = load i32, i32* %y.addr, align 4
  %cmp = icmp slt i32 %i2, %i3
  br i1 %cmp, label %bb, label %bb14

for.body:                                         ; preds = %bb
  %i4 = load i32, i32* %y.addr, align 4
  %cmp1 = icmp sle i32 %i4, 2
  br i1 %cmp1, label %bb15, label %bb16

land.lhs.true:                                    ; preds = %bb15
  %i5 = load i32, i32* %i, align 4
  %cmp2 = icmp sle i32 2, %i5
  br i1 %cmp2, label %bb17, label %bb18

if.then:                                          ; preds = %bb17
  %i6 = load i32, i32* %y.addr, align 4
  %div = sdiv i32 %i6, 3
  store i32 %div, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  br label %if.end

if.else:                                          ; preds = %bb18, %bb16
  %i7 = load i32, i32* %i, align 4
  %i8 = load i32, i32* %y.addr, align 4
  %sub = sub nsw i32 %i7, %i8
  store i32 %sub, i32* %ref.tmp3, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp3)
  br label %if.end

if.end:                                           ; preds = %if.else, %if.then
  br label %for.inc

for.inc:                                          ; preds = %if.end
  %i9 = load i32, i32* %i, align 4
  %add = add nsw i32 %i9, 1
  store i32 %add, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb14
  %i10 = load i32, i32* %y.addr, align 4
  %sub5 = sub nsw i32 0, %i10
  store i32 %sub5, i32* %ref.tmp4, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp4)
  %i11 = load i32, i32* %i, align 4
  %cmp6 = icmp sgt i32 %i11, 2
  br i1 %cmp6, label %bb19, label %bb20

if.then7:                                         ; preds = %bb19
  %i12 = load i32, i32* %t, align 4
  %add9 = add nsw i32 %i12, 1
  store i32 %add9, i32* %ref.tmp8, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp8)
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

if.end10:                                         ; preds = %bb20
  %i13 = load i32, i32* %t, align 4
  %rem = srem i32 %i13, 3
  store i32 %rem, i32* %ref.tmp11, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp11)
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

cleanup:                                          ; preds = %if.end10, %if.then7
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb21, label %bb22

nrvo.unused:                                      ; preds = %bb22
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb21, %nrvo.unused
  ret void

bb:                                               ; preds = %for.cond
  br label %for.body

bb14:                                             ; preds = %for.cond
  br label %for.end

bb15:                                             ; preds = %for.body
  br label %land.lhs.true

bb16:                                             ; preds = %for.body
  br label %if.else

bb17:                                             ; preds = %land.lhs.true
  br label %if.then

bb18:                                             ; preds = %land.lhs.true
  br label %if.else

bb19:                                             ; preds = %for.end
  br label %if.then7

bb20:                                             ; preds = %for.end
  br label %if.end10

bb21:                                             ; preds = %cleanup
  br label %nrvo.skipdtor

bb22:                                             ; preds = %cleanup
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2h7NSt3__16vectorIiNS_9allocatorIiEEEEi(%"class.std::__1::vector"* %l, i32 %y) {
entry:
  %retval = alloca i32, align 4
  %y.addr = alloca i32, align 4
  store i32 %y, i32* %y.addr, align 4
  %i = load i32, i32* %y.addr, align 4
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv = trunc i64 %call to i32
  %cmp = icmp sgt i32 %i, %conv
  br i1 %cmp, label %bb, label %bb5

if.then:                                          ; preds = %bb
  %i1 = load i32, i32* %y.addr, align 4
  %cmp1 = icmp sge i32 2, %i1
  br i1 %cmp1, label %bb6, label %bb7

if.then2:                                         ; preds = %bb6
  %i2 = load i32, i32* %y.addr, align 4
  store i32 %i2, i32* %retval, align 4
  br label %return

if.end:                                           ; preds = %bb7
  %i3 = load i32, i32* %y.addr, align 4
  store i32 %i3, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb5
  %call3 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv4 = trunc i64 %call3 to i32
  store i32 %conv4, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else, %if.end, %if.then2
  %i4 = load i32, i32* %retval, align 4
  ret i32 %i4

bb:                                               ; preds = %entry
  br label %if.then

bb5:                                              ; preds = %entry
  br label %if.else

bb6:                                              ; preds = %if.then
  br label %if.then2

bb7:                                              ; preds = %if.then
  br label %if.end
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z2h8ii(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %x, i32 %n) {
entry:
  %result.ptr = alloca i8*, align 8
  %x.addr = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %n0 = alloca i32, align 4
  %s = alloca i32, align 4
  %acc = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %ref.tmp3 = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %x, i32* %x.addr, align 4
  store i32 %n, i32* %n.addr, align 4
  %i2 = load i32, i32* %n.addr, align 4
  store i32 %i2, i32* %n0, align 4
  %i3 = load i32, i32* %n0, align 4
  %div = sdiv i32 %i3, 2
  store i32 %div, i32* %s, align 4
  %i4 = load i32, i32* %x.addr, align 4
  %rem = srem i32 %i4, 3
  store i32 %rem, i32* %acc, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i5 = load i32, i32* %i, align 4
  %cmp = icmp slt i32 %i5, 3
  br i1 %cmp, label %bb, label %bb12

for.body:                                         ; preds = %bb
  %i6 = load i32, i32* %n.addr, align 4
  %add = add nsw i32 1, %i6
  store i32 %add, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  br label %for.inc

for.inc:                                          ; preds = %for.body
  %i7 = load i32, i32* %i, align 4
  %add1 = add nsw i32 %i7, 1
  store i32 %add1, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb12
  %i8 = load i32, i32* %n.addr, align 4
  %i9 = load i32, i32* %x.addr, align 4
  %add2 = add nsw i32 %i8, %i9
  store i32 %add2, i32* %acc, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %n0)
  %i10 = load i32, i32* %n.addr, align 4
  %i11 = load i32, i32* %x.addr, align 4
  %sub = sub nsw i32 %i10, %i11
  store i32 %sub, i32* %ref.tmp3, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp3)
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb13, label %bb14

nrvo.unused:                                      ; preds = %bb14
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb13, %nrvo.unused
  ret void

bb:                                               ; preds = %for.cond
  br label %for.body

bb12:                                             ; preds = %for.cond
  br label %for.end

bb13:                                             ; preds = %for.end
  br label %nrvo.skipdtor

bb14:                                             ; preds = %for.end
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z2h9iNSt3__16vectorIiNS_9allocatorIiEEEE(i32 %x, %"class.std::__1::vector"* %l) {
entry:
  %retval = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %acc = alloca i32, align 4
  %i = alloca i32, align 4
  %j = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  %i1 = load i32, i32* %x.addr, align 4
  %call = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv = trunc i64 %call to i32
  %sub = sub nsw i32 %i1, %conv
  store i32 %sub, i32* %acc, align 4
  store i32 0, i32* %i, align 4
  store i32 0, i32* %j, align 4
  br label %while.cond

while.cond:                                       ; preds = %if.end, %entry
  %i2 = load i32, i32* %j, align 4
  %i3 = load i32, i32* %x.addr, align 4
  %cmp = icmp slt i32 %i2, %i3
  br i1 %cmp, label %bb, label %bb17

while.body:                                       ; preds = %bb
  %i4 = load i32, i32* %acc, align 4
  %cmp1 = icmp sge i32 %i4, 2
  br i1 %cmp1, label %bb18, label %bb19

if.then:                                          ; preds = %bb18
  %i5 = load i32, i32* %acc, align 4
  %i6 = load i32, i32* %x.addr, align 4
  %add = add nsw i32 %i5, %i6
  store i32 %add, i32* %retval, align 4
  br label %return

if.end:                                           ; preds = %bb19
  %i7 = load i32, i32* %j, align 4
  %add2 = add nsw i32 %i7, 1
  store i32 %add2, i32* %j, align 4
  br label %while.cond

while.end:                                        ; preds = %bb17
  %i8 = load i32, i32* %j, align 4
  store i32 %i8, i32* %acc, align 4
  store i32 0, i32* %i, align 4
  br label %while.cond3

while.cond3:                                      ; preds = %while.body7, %while.end
  %i9 = load i32, i32* %i, align 4
  %conv4 = sext i32 %i9 to i64
  %call5 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %cmp6 = icmp ult i64 %conv4, %call5
  br i1 %cmp6, label %bb20, label %bb21

while.body7:                                      ; preds = %bb20
  %i10 = load i32, i32* %i, align 4
  %conv8 = sext i32 %i10 to i64
  %call9 = call nonnull align 4 dereferenceable(4) i32* @_ZNSt3__16vectorIiNS_9allocatorIiEEEixEm(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l, i64 %conv8)
  %i11 = load i32, i32* %call9, align 4
  store i32 %i11, i32* %acc, align 4
  %i12 = load i32, i32* %acc, align 4
  %call10 = call i64 @_ZNKSt3__16vectorIiNS_9allocatorIiEEE4sizeEv(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %l)
  %conv11 = trunc i64 %call10 to i32
  %sub12 = sub nsw i32 %i12, %conv11
  store i32 %sub12, i32* %acc, align 4
  %i13 = load i32, i32* %i, align 4
  %add13 = add nsw i32 %i13, 1
  store i32 %add13, i32* %i, align 4
  br label %while.cond3

while.end14:                                      ; preds = %bb21
  %i14 = load i32, i32* %acc, align 4
  %i15 = load i32, i32* %x.addr, align 4
  %add15 = add nsw i32 %i14, %i15
  store i32 %add15, i32* %retval, align 4
  br label %return

return:                                           ; preds = %while.end14, %if.then
  %i16 = load i32, i32* %retval, align 4
  ret i32 %i16

bb:                                               ; preds = %while.cond
  br label %while.body

bb17:                                             ; preds = %while.cond
  br label %while.end

bb18:                                             ; preds = %while.body
  br label %if.then

bb19:                                             ; preds = %while.body
  br label %if.end

bb20:                                             ; preds = %while.cond3
  br label %while.body7

bb21:                                             ; preds = %while.cond3
  br label %while.end14
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3h10i(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %n) {
entry:
  %result.ptr = alloca i8*, align 8
  %n.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %ref.tmp1 = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %n, i32* %n.addr, align 4
  %i2 = load i32, i32* %n.addr, align 4
  store i32 %i2, i32* %t, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i3 = load i32, i32* %i, align 4
  %i4 = load i32, i32* %n.addr, align 4
  %cmp = icmp slt i32 %i3, %i4
  br i1 %cmp, label %bb, label %bb8

for.body:                                         ; preds = %bb
  %i5 = load i32, i32* %n.addr, align 4
  %sub = sub nsw i32 0, %i5
  store i32 %sub, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  br label %for.inc

for.inc:                                          ; preds = %for.body
  %i6 = load i32, i32* %i, align 4
  %add = add nsw i32 %i6, 1
  store i32 %add, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb8
  %i7 = load i32, i32* %t, align 4
  %sub2 = sub nsw i32 0, %i7
  store i32 %sub2, i32* %ref.tmp1, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp1)
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb9, label %bb10

nrvo.unused:                                      ; preds = %bb10
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb9, %nrvo.unused
  ret void

bb:                                               ; preds = %for.cond
  br label %for.body

bb8:                                              ; preds = %for.cond
  br label %for.end

bb9:                                              ; preds = %for.end
  br label %nrvo.skipdtor

bb10:                                             ; preds = %for.end
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3h11ii(i32 %a, i32 %y) {
entry:
  %a.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %acc = alloca i32, align 4
  store i32 %a, i32* %a.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  %i = load i32, i32* %a.addr, align 4
  %rem = srem i32 %i, 2
  store i32 %rem, i32* %acc, align 4
  %i1 = load i32, i32* %acc, align 4
  %i2 = load i32, i32* %y.addr, align 4
  %sub = sub nsw i32 %i1, %i2
  store i32 %sub, i32* %acc, align 4
  %i3 = load i32, i32* %acc, align 4
  %i4 = load i32, i32* %y.addr, align 4
  %sub1 = sub nsw i32 %i3, %i4
  ret i32 %sub1
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3h12i(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %y) {
entry:
  %result.ptr = alloca i8*, align 8
  %y.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %ref.tmp2 = alloca i32, align 4
  %ref.tmp4 = alloca i32, align 4
  %ref.tmp6 = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %y, i32* %y.addr, align 4
  %i2 = load i32, i32* %y.addr, align 4
  %sub = sub nsw i32 0, %i2
  store i32 %sub, i32* %t, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  br label %while.cond

while.cond:                                       ; preds = %if.end, %entry
  %i3 = load i32, i32* %i, align 4
  %i4 = load i32, i32* %y.addr, align 4
  %cmp = icmp slt i32 %i3, %i4
  br i1 %cmp, label %bb, label %bb12

while.body:                                       ; preds = %bb
  %i5 = load i32, i32* %t, align 4
  %cmp1 = icmp sgt i32 %i5, 1
  br i1 %cmp1, label %bb13, label %bb14

if.then:                                          ; preds = %bb13
  %i6 = load i32, i32* %t, align 4
  %i7 = load i32, i32* %i, align 4
  %add = add nsw i32 %i6, %i7
  store i32 %add, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  br label %if.end

if.else:                                          ; preds = %bb14
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %y.addr)
  br label %if.end

if.end:                                           ; preds = %if.else, %if.then
  store i32 0, i32* %ref.tmp2, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp2)
  %i8 = load i32, i32* %i, align 4
  %add3 = add nsw i32 %i8, 1
  store i32 %add3, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb12
  %i9 = load i32, i32* %i, align 4
  %sub5 = sub nsw i32 0, %i9
  store i32 %sub5, i32* %ref.tmp4, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp4)
  %i10 = load i32, i32* %i, align 4
  %rem = srem i32 %i10, 2
  store i32 %rem, i32* %ref.tmp6, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp6)
  %i11 = load i32, i32* %y.addr, align 4
  store i32 %i11, i32* %t, align 4
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb15, label %bb16

nrvo.unused:                                      ; preds = %bb16
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb15, %nrvo.unused
  ret void

bb:                                               ; preds = %while.cond
  br label %while.body

bb12:                                             ; preds = %while.cond
  br label %while.end

bb13:                                             ; preds = %while.body
  br label %if.then

bb14:                                             ; preds = %while.body
  br label %if.else

bb15:                                             ; preds = %while.end
  br label %nrvo.skipdtor

bb16:                                             ; preds = %while.end
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3h13iii(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %a, i32 %y, i32 %x) {
entry:
  %result.ptr = alloca i8*, align 8
  %a.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %ref.tmp1 = alloca i32, align 4
  %ref.tmp3 = alloca i32, align 4
  %cleanup.dest.slot = alloca i32, align 4
  %ref.tmp12 = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %a, i32* %a.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  store i32 %x, i32* %x.addr, align 4
  %i2 = load i32, i32* %x.addr, align 4
  %add = add nsw i32 %i2, 2
  store i32 %add, i32* %t, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  %i3 = load i32, i32* %i, align 4
  %sub = sub nsw i32 0, %i3
  store i32 %sub, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i4 = load i32, i32* %i, align 4
  %i5 = load i32, i32* %x.addr, align 4
  %cmp = icmp slt i32 %i4, %i5
  br i1 %cmp, label %bb, label %bb19

for.body:                                         ; preds = %bb
  %i6 = load i32, i32* %i, align 4
  %i7 = load i32, i32* %t, align 4
  %add2 = add nsw i32 %i6, %i7
  store i32 %add2, i32* %ref.tmp1, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp1)
  %i8 = load i32, i32* %i, align 4
  %sub4 = sub nsw i32 %i8, 3
  store i32 %sub4, i32* %ref.tmp3, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp3)
  br label %for.inc

for.inc:                                          ; preds = %for.body
  %i9 = load i32, i32* %i, align 4
  %add5 = add nsw i32 %i9, 1
  store i32 %add5, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb19
  %i10 = load i32, i32* %a.addr, align 4
  %cmp6 = icmp slt i32 %i10, 1
  br i1 %cmp6, label %bb20, label %bb21

if.then:                                          ; preds = %bb20
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

if.end:                                           ; preds = %bb21
  store i32 0, i32* %i, align 4
  br label %while.cond

while.cond:                                       ; preds = %if.end13, %if.end
  %i11 = load i32, i32* %i, align 4
  %cmp7 = icmp slt i32 %i11, 3
  br i1 %cmp7, label %bb22, label %bb23

while.body:                                       ; preds = %bb22
  %i12 = load i32, i32* %i, align 4
  %cmp8 = icmp slt i32 0, %i12
  br i1 %cmp8, label %bb24, label %bb25

land.lhs.true:                                    ; preds = %bb24
  %i13 = load i32, i32* %i, align 4
  %i14 = load i32, i32* %a.addr, align 4
  %cmp9 = icmp sle i32 %i13, %i14
  br i1 %cmp9, label %bb26, label %bb27

if.then10:                                        ; preds = %bb26
  %i15 = load i32, i32* %i, align 4
  %sub11 = sub nsw i32 %i15, 0
  store i32 %sub11, i32* %t, align 4
  br label %if.end13

if.else:                                          ; preds = %bb27, %bb25
  store i32 1, i32* %ref.tmp12, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp12)
  br label %if.end13

if.end13:                                         ; preds = %if.else, %if.then10
  %i16 = load i32, i32* %t, align 4
  %i17 = load i32, i32* %y.addr, align 4
  %add14 = add nsw i32 %i16, %i17
  store i32 %add14, i32* %t, align 4
  %i18 = load i32, i32* %i, align 4
  %add15 = add nsw i32 %i18, 1
  store i32 %add15, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb23
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

cleanup:                                          ; preds = %while.end, %if.then
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb28, label %bb29

nrvo.unused:                                      ; preds = %bb29
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb28, %nrvo.unused
  ret void

bb:                                               ; preds = %for.cond
  br label %for.body

bb19:                                             ; preds = %for.cond
  br label %for.end

bb20:                                             ; preds = %for.end
  br label %if.then

bb21:                                             ; preds = %for.end
  br label %if.end

bb22:                                             ; preds = %while.cond
  br label %while.body

bb23:                                             ; preds = %while.cond
  br label %while.end

bb24:                                             ; preds = %while.body
  br label %land.lhs.true

bb25:                                             ; preds = %while.body
  br label %if.else

bb26:                                             ; preds = %land.lhs.true
  br label %if.then10

bb27:                                             ; preds = %land.lhs.true
  br label %if.else

bb28:                                             ; preds = %cleanup
  br label %nrvo.skipdtor

bb29:                                             ; preds = %cleanup
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3h14ii(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %n, i32 %x) {
entry:
  %result.ptr = alloca i8*, align 8
  %n.addr = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %ref.tmp3 = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %n, i32* %n.addr, align 4
  store i32 %x, i32* %x.addr, align 4
  %i2 = load i32, i32* %n.addr, align 4
  %rem = srem i32 %i2, 3
  store i32 %rem, i32* %s, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  %i3 = load i32, i32* %s, align 4
  %i4 = load i32, i32* %x.addr, align 4
  %cmp = icmp sgt i32 %i3, %i4
  br i1 %cmp, label %bb, label %bb14

if.then:                                          ; preds = %bb
  %i5 = load i32, i32* %n.addr, align 4
  %i6 = load i32, i32* %s, align 4
  %add = add nsw i32 %i5, %i6
  store i32 %add, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  br label %if.end

if.end:                                           ; preds = %bb14, %if.then
  br label %while.cond

while.cond:                                       ; preds = %while.body, %if.end
  %i7 = load i32, i32* %i, align 4
  %i8 = load i32, i32* %n.addr, align 4
  %cmp1 = icmp slt i32 %i7, %i8
  br i1 %cmp1, label %bb15, label %bb16

while.body:                                       ; preds = %bb15
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %x.addr)
  %i9 = load i32, i32* %i, align 4
  %add2 = add nsw i32 %i9, 1
  store i32 %add2, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb16
  %i10 = load i32, i32* %s, align 4
  %add4 = add nsw i32 0, %i10
  store i32 %add4, i32* %ref.tmp3, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp3)
  %i11 = load i32, i32* %x.addr, align 4
  %i12 = load i32, i32* %n.addr, align 4
  %cmp5 = icmp sle i32 %i11, %i12
  br i1 %cmp5, label %bb17, label %bb18

if.then6:                                         ; preds = %bb17
  %i13 = load i32, i32* %x.addr, align 4
  %rem7 = srem i32 %i13, 2
  store i32 %rem7, i32* %s, align 4
  br label %if.end8

if.end8:                                          ; preds = %bb18, %if.then6
  store i1 true, i1* %nrvo, align 1
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb19, label %bb20

nrvo.unused:                                      ; preds = %bb20
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb19, %nrvo.unused
  ret void

bb:                                               ; preds = %entry
  br label %if.then

bb14:                                             ; preds = %entry
  br label %if.end

bb15:                                             ; preds = %while.cond
  br label %while.body

bb16:                                             ; preds = %while.cond
  br label %while.end

bb17:                                             ; preds = %while.end
  br label %if.then6

bb18:                                             ; preds = %while.end
  br label %if.end8

bb19:                                             ; preds = %if.end8
  br label %nrvo.skipdtor

bb20:                                             ; preds = %if.end8
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3h15i(i32 %x) {
entry:
  %x.addr = alloca i32, align 4
  %s = alloca i32, align 4
  %t = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 0, i32* %s, align 4
  %i = load i32, i32* %s, align 4
  store i32 %i, i32* %t, align 4
  %i1 = load i32, i32* %s, align 4
  store i32 %i1, i32* %t, align 4
  %i2 = load i32, i32* %x.addr, align 4
  %i3 = load i32, i32* %x.addr, align 4
  %add = add nsw i32 %i2, %i3
  store i32 %add, i32* %t, align 4
  %i4 = load i32, i32* %s, align 4
  %i5 = load i32, i32* %t, align 4
  %add1 = add nsw i32 %i4, %i5
  store i32 %add1, i32* %s, align 4
  %i6 = load i32, i32* %t, align 4
  %add2 = add nsw i32 %i6, 0
  ret i32 %add2
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3h16NSt3__16vectorIiNS_9allocatorIiEEEEiii(%"class.std::__1::vector"* noalias sret align 8 %agg.result, %"class.std::__1::vector"* %l, i32 %x, i32 %n, i32 %y) {
entry:
  %result.ptr = alloca i8*, align 8
  %x.addr = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %acc = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %ref.tmp3 = alloca i32, align 4
  %cleanup.dest.slot = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %x, i32* %x.addr, align 4
  store i32 %n, i32* %n.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  %i2 = load i32, i32* %x.addr, align 4
  %rem = srem i32 %i2, 3
  store i32 %rem, i32* %t, align 4
  %i3 = load i32, i32* %y.addr, align 4
  %rem1 = srem i32 %i3, 2
  store i32 %rem1, i32* %acc, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  br label %while.cond

while.cond:                                       ; preds = %if.end, %entry
  %i4 = load i32, i32* %i, align 4
  %i5 = load i32, i32* %n.addr, align 4
  %cmp = icmp slt i32 %i4, %i5
  br i1 %cmp, label %bb, label %bb16

while.body:                                       ; preds = %bb
  %i6 = load i32, i32* %i, align 4
  %i7 = load i32, i32* %acc, align 4
  %cmp2 = icmp slt i32 %i6, %i7
  br i1 %cmp2, label %bb17, label %bb18

if.then:                                          ; preds = %bb17
  %i8 = load i32, i32* %t, align 4
  %div = sdiv i32 %i8, 3
  store i32 %div, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  br label %if.end

if.end:                                           ; preds = %bb18, %if.then
  %i9 = load i32, i32* %i, align 4
  %add = add nsw i32 %i9, 1
  store i32 %add, i32* %i, align 4
  br label %while.cond

while.end:                                        ; preds = %bb16
  %i10 = load i32, i32* %i, align 4
  %sub = sub nsw i32 %i10, 2
  store i32 %sub, i32* %ref.tmp3, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp3)
  %i11 = load i32, i32* %x.addr, align 4
  %cmp4 = icmp ne i32 %i11, 3
  br i1 %cmp4, label %bb19, label %bb20

if.then5:                                         ; preds = %bb19
  %i12 = load i32, i32* %i, align 4
  store i32 %i12, i32* %acc, align 4
  br label %if.end7

if.else:                                          ; preds = %bb20
  %i13 = load i32, i32* %i, align 4
  %sub6 = sub nsw i32 0, %i13
  store i32 %sub6, i32* %acc, align 4
  br label %if.end7

if.end7:                                          ; preds = %if.else, %if.then5
  %i14 = load i32, i32* %acc, align 4
  %i15 = load i32, i32* %t, align 4
  %cmp8 = icmp sle i32 %i14, %i15
  br i1 %cmp8, label %bb21, label %bb22

if.then9:                                         ; preds = %bb21
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

if.end10:                                         ; preds = %bb22
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

cleanup:                                          ; preds = %if.end10, %if.then9
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb23, label %bb24

nrvo.unused:                                      ; preds = %bb24
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb23, %nrvo.unused
  ret void

bb:                                               ; preds = %while.cond
  br label %while.body

bb16:                                             ; preds = %while.cond
  br label %while.end

bb17:                                             ; preds = %while.body
  br label %if.then

bb18:                                             ; preds = %while.body
  br label %if.end

bb19:                                             ; preds = %while.end
  br label %if.then5

bb20:                                             ; preds = %while.end
  br label %if.else

bb21:                                             ; preds = %if.end7
  br label %if.then9

bb22:                                             ; preds = %if.end7
  br label %if.end10

bb23:                                             ; preds = %cleanup
  br label %nrvo.skipdtor

bb24:                                             ; preds = %cleanup
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3h17i(i32 %n) {
entry:
  %n.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %i = alloca i32, align 4
  store i32 %n, i32* %n.addr, align 4
  %i1 = load i32, i32* %n.addr, align 4
  %sub = sub nsw i32 %i1, 0
  store i32 %sub, i32* %t, align 4
  store i32 0, i32* %i, align 4
  %i2 = load i32, i32* %i, align 4
  %i3 = load i32, i32* %n.addr, align 4
  %add = add nsw i32 %i2, %i3
  store i32 %add, i32* %t, align 4
  %i4 = load i32, i32* %i, align 4
  %i5 = load i32, i32* %t, align 4
  %cmp = icmp sge i32 %i4, %i5
  br i1 %cmp, label %bb, label %bb28

if.then:                                          ; preds = %bb
  %i6 = load i32, i32* %i, align 4
  %div = sdiv i32 %i6, 3
  store i32 %div, i32* %t, align 4
  br label %if.end

if.else:                                          ; preds = %bb28
  %i7 = load i32, i32* %i, align 4
  %rem = srem i32 %i7, 3
  store i32 %rem, i32* %t, align 4
  br label %if.end

if.end:                                           ; preds = %if.else, %if.then
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %if.end
  %i8 = load i32, i32* %i, align 4
  %i9 = load i32, i32* %n.addr, align 4
  %cmp1 = icmp slt i32 %i8, %i9
  br i1 %cmp1, label %bb29, label %bb30

for.body:                                         ; preds = %bb29
  %i10 = load i32, i32* %i, align 4
  %cmp2 = icmp sge i32 3, %i10
  br i1 %cmp2, label %bb31, label %bb32

if.then3:                                         ; preds = %bb31
  %i11 = load i32, i32* %t, align 4
  %sub4 = sub nsw i32 %i11, 2
  store i32 %sub4, i32* %t, align 4
  %i12 = load i32, i32* %n.addr, align 4
  %i13 = load i32, i32* %i, align 4
  %sub5 = sub nsw i32 %i12, %i13
  store i32 %sub5, i32* %t, align 4
  br label %if.end9

if.else6:                                         ; preds = %bb32
  %i14 = load i32, i32* %t, align 4
  %i15 = load i32, i32* %t, align 4
  %i16 = load i32, i32* %i, align 4
  %sub7 = sub nsw i32 %i15, %i16
  %add8 = add nsw i32 %i14, %sub7
  store i32 %add8, i32* %t, align 4
  br label %if.end9

if.end9:                                          ; preds = %if.else6, %if.then3
  %i17 = load i32, i32* %n.addr, align 4
  %add10 = add nsw i32 %i17, 3
  store i32 %add10, i32* %t, align 4
  br label %for.inc

for.inc:                                          ; preds = %if.end9
  %i18 = load i32, i32* %i, align 4
  %add11 = add nsw i32 %i18, 1
  store i32 %add11, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb30
  store i32 1, i32* %i, align 4
  br label %for.cond12

for.cond12:                                       ; preds = %for.inc20, %for.end
  %i19 = load i32, i32* %i, align 4
  %i20 = load i32, i32* %n.addr, align 4
  %cmp13 = icmp slt i32 %i19, %i20
  br i1 %cmp13, label %bb33, label %bb34

for.body14:                                       ; preds = %bb33
  %i21 = load i32, i32* %n.addr, align 4
  %i22 = load i32, i32* %t, align 4
  %cmp15 = icmp sle i32 %i21, %i22
  br i1 %cmp15, label %bb35, label %bb36

if.then16:                                        ; preds = %bb35
  %i23 = load i32, i32* %t, align 4
  %i24 = load i32, i32* %t, align 4
  %i25 = load i32, i32* %n.addr, align 4
  %sub17 = sub nsw i32 %i24, %i25
  %add18 = add nsw i32 %i23, %sub17
  store i32 %add18, i32* %t, align 4
  br label %if.end19

if.end19:                                         ; preds = %bb36, %if.then16
  br label %for.inc20

for.inc20:                                        ; preds = %if.end19
  %i26 = load i32, i32* %i, align 4
  %add21 = add nsw i32 %i26, 1
  store i32 %add21, i32* %i, align 4
  br label %for.cond12

for.end22:                                        ; preds = %bb34
  %i27 = load i32, i32* %t, align 4
  ret i32 %i27

bb:                                               ; preds = %entry
  br label %if.then

bb28:                                             ; preds = %entry
  br label %if.else

bb29:                                             ; preds = %for.cond
  br label %for.body

bb30:                                             ; preds = %for.cond
  br label %for.end

bb31:                                             ; preds = %for.body
  br label %if.then3

bb32:                                             ; preds = %for.body
  br label %if.else6

bb33:                                             ; preds = %for.cond12
  br label %for.body14

bb34:                                             ; preds = %for.cond12
  br label %for.end22

bb35:                                             ; preds = %for.body14
  br label %if.then16

bb36:                                             ; preds = %for.body14
  br label %if.end19
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local void @_Z3h18i(%"class.std::__1::vector"* noalias sret align 8 %agg.result, i32 %n) {
entry:
  %result.ptr = alloca i8*, align 8
  %n.addr = alloca i32, align 4
  %t = alloca i32, align 4
  %acc = alloca i32, align 4
  %nrvo = alloca i1, align 1
  %i = alloca i32, align 4
  %cleanup.dest.slot = alloca i32, align 4
  %ref.tmp = alloca i32, align 4
  %i1 = bitcast %"class.std::__1::vector"* %agg.result to i8*
  store i8* %i1, i8** %result.ptr, align 8
  store i32 %n, i32* %n.addr, align 4
  store i32 0, i32* %t, align 4
  store i32 -1, i32* %acc, align 4
  store i1 false, i1* %nrvo, align 1
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEEC1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  store i32 0, i32* %i, align 4
  br label %for.cond

for.cond:                                         ; preds = %for.inc, %entry
  %i2 = load i32, i32* %i, align 4
  %i3 = load i32, i32* %n.addr, align 4
  %cmp = icmp slt i32 %i2, %i3
  br i1 %cmp, label %bb, label %bb8

for.body:                                         ; preds = %bb
  %i4 = load i32, i32* %i, align 4
  %cmp1 = icmp slt i32 3, %i4
  br i1 %cmp1, label %bb9, label %bb10

if.then:                                          ; preds = %bb9
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

if.end:                                           ; preds = %bb10
  br label %for.inc

for.inc:                                          ; preds = %if.end
  %i5 = load i32, i32* %i, align 4
  %add = add nsw i32 %i5, 1
  store i32 %add, i32* %i, align 4
  br label %for.cond

for.end:                                          ; preds = %bb8
  %i6 = load i32, i32* %acc, align 4
  %i7 = load i32, i32* %i, align 4
  %add2 = add nsw i32 %i6, %i7
  store i32 %add2, i32* %ref.tmp, align 4
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEE9push_backERKi(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result, i32* nonnull align 4 dereferenceable(4) %ref.tmp)
  store i1 true, i1* %nrvo, align 1
  store i32 1, i32* %cleanup.dest.slot, align 4
  br label %cleanup

cleanup:                                          ; preds = %for.end, %if.then
  %nrvo.val = load i1, i1* %nrvo, align 1
  br i1 %nrvo.val, label %bb11, label %bb12

nrvo.unused:                                      ; preds = %bb12
  call void @_ZNSt3__16vectorIiNS_9allocatorIiEEED1Ev(%"class.std::__1::vector"* nonnull align 8 dereferenceable(24) %agg.result)
  br label %nrvo.skipdtor

nrvo.skipdtor:                                    ; preds = %bb11, %nrvo.unused
  ret void

bb:                                               ; preds = %for.cond
  br label %for.body

bb8:                                              ; preds = %for.cond
  br label %for.end

bb9:                                              ; preds = %for.body
  br label %if.then

bb10:                                             ; preds = %for.body
  br label %if.end

bb11:                                             ; preds = %cleanup
  br label %nrvo.skipdtor

bb12:                                             ; preds = %cleanup
  br label %nrvo.unused
}

; Function Attrs: noinline nounwind optnone uwtable
define dso_local i32 @_Z3h19iNSt3__16vectorIiNS_9allocatorIiEEEEii(i32 %x, %"class.std::__1::vector"* %l, i32 %y, i32 %n) {
entry:
  %retval = alloca i32, align 4
  %x.addr = alloca i32, align 4
  %y.addr = alloca i32, align 4
  %n.addr = alloca i32, align 4
  %acc = alloca i32, align 4
  store i32 %x, i32* %x.addr, align 4
  store i32 %y, i32* %y.addr, align 4
  store i32 %n, i32* %n.addr, align 4
  %i = load i32, i32* %x.addr, align 4
  store i32 %i, i32* %acc, align 4
  %i1 = load i32, i32* %x.addr, align 4
  %cmp = icmp sge i32 2, %i1
  br i1 %cmp, label %bb, label %bb9

if.then:                                          ; preds = %bb
  %i2 = load i32, i32* %acc, align 4
  store i32 %i2, i32* %retval, align 4
  br label %return

if.end:                                           ; preds = %bb9
  %i3 = load i32, i32* %n.addr, align 4
  store i32 %i3, i32* %acc, align 4
  %i4 = load i32, i32* %y.addr, align 4
  %i5 = load i32, i32* %acc, align 4
  %cmp1 = icmp sgt i32 %i4, %i5
  br i1 %cmp1, label %bb10, label %bb11

if.then2:                                         ; preds = %bb10
  %i6 = load i32, i32* %acc, align 4
  store i32 %i6, i32* %retval, align 4
  br label %return

if.else:                                          ; preds = %bb11
  %i7 = load i32, i32* %acc, align 4
  store i32 %i7, i32* %retval, align 4
  br label %return

return:                                           ; preds = %if.else, %if.then2, %if.then
  %i8 = load i32, i32* %retval, align 4
  ret i32 %i8

bb:                                               ; preds = %entry
  br label %if.then

bb9:                                              ; preds = %entry
  br label %if.end

bb10:                                             ; preds = %if.end
  br label %if.then2

bb11:                                             ; preds = %if.end
  br label %if.else
}



