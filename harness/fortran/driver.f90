! The same calls as driver.c, through the Fortran interface.
module io
  use iso_c_binding
  implicit none
  interface
    function verif_simd_len() result(r) bind(C, name="verif_simd_len")
      use iso_c_binding
      integer(C_INT) :: r
    end function
    function verif_nshell_simd() result(r) bind(C, name="verif_nshell_simd")
      use iso_c_binding
      integer(C_INT) :: r
    end function
    function verif_maxam() result(r) bind(C, name="verif_maxam")
      use iso_c_binding
      integer(C_INT) :: r
    end function
    function verif_maxder() result(r) bind(C, name="verif_maxder")
      use iso_c_binding
      integer(C_INT) :: r
    end function
    function verif_alloc(n) result(r) bind(C, name="verif_alloc")
      use iso_c_binding
      integer(C_SIZE_T), value :: n
      type(C_PTR) :: r
    end function
    subroutine verif_free(p) bind(C, name="verif_free")
      use iso_c_binding
      type(C_PTR), value :: p
    end subroutine
  end interface
contains
  function ri() result(r)
    integer :: r
    integer(C_INT32_T) :: v
    read(10) v
    r = v
  end function
  function rd() result(v)
    double precision :: v
    read(10) v
  end function
  subroutine wi(v)
    integer, intent(in) :: v
    write(11) int(v, C_INT32_T)
  end subroutine
  subroutine wl(v)
    integer(C_INT64_T), intent(in) :: v
    write(11) v
  end subroutine
  subroutine wd(v)
    double precision, intent(in) :: v
    write(11) v
  end subroutine
  subroutine wp(p)
    type(C_PTR), intent(in) :: p
    if (c_associated(p)) then
      call wi(1)
    else
      call wi(0)
    end if
  end subroutine
end module

module work_on_it
  use iso_c_binding
  use SimintFortran
  use io
  implicit none
contains
  subroutine dump_shell(s)
    type(c_simint_shell), intent(in), target :: s
    double precision, pointer :: a(:), c(:)
    integer :: i
    call wi(int(s%am)); call wi(int(s%nprim)); call wd(s%x); call wd(s%y); call wd(s%z)
    call c_f_pointer(s%alpha, a, shape=[int(s%nprim)])
    call c_f_pointer(s%coef, c, shape=[int(s%nprim)])
    do i = 1, s%nprim
      call wd(a(i)); call wd(c(i))
    end do
    call wl(int(s%memsize, C_INT64_T))
    call wp(s%ptr)
  end subroutine

  subroutine dump_pair(P)
    type(c_simint_multi_shellpair), intent(in), target :: P
    integer(C_INT), pointer :: np(:)
    double precision, pointer :: abx(:), aby(:), abz(:), x(:), y(:), z(:), pax(:), pay(:), paz(:), pbx(:), pby(:), pbz(:)
    double precision, pointer :: al(:), pre(:), scr(:)
#if MAXDER > 0
    double precision, pointer :: al2(:), be2(:)
#endif
    integer :: i, k, idx, n, m
    call wi(int(P%am1)); call wi(int(P%am2)); call wi(int(P%nprim)); call wi(int(P%nshell12)); call wi(int(P%nshell12_clip))
    n = P%nshell12
    call c_f_pointer(P%nprim12, np, shape=[n])
    call c_f_pointer(P%AB_x, abx, shape=[n]); call c_f_pointer(P%AB_y, aby, shape=[n]); call c_f_pointer(P%AB_z, abz, shape=[n])
    do i = 1, n
      call wi(int(np(i))); call wd(abx(i)); call wd(aby(i)); call wd(abz(i))
    end do
    m = 1000000
    call c_f_pointer(P%x, x, shape=[m]); call c_f_pointer(P%y, y, shape=[m]); call c_f_pointer(P%z, z, shape=[m])
    call c_f_pointer(P%PA_x, pax, shape=[m]); call c_f_pointer(P%PA_y, pay, shape=[m]); call c_f_pointer(P%PA_z, paz, shape=[m])
    call c_f_pointer(P%PB_x, pbx, shape=[m]); call c_f_pointer(P%PB_y, pby, shape=[m]); call c_f_pointer(P%PB_z, pbz, shape=[m])
    call c_f_pointer(P%alpha, al, shape=[m])
#if MAXDER > 0
    call c_f_pointer(P%alpha2, al2, shape=[m]); call c_f_pointer(P%beta2, be2, shape=[m])
#endif
    call c_f_pointer(P%prefac, pre, shape=[m])
    if (c_associated(P%screen)) call c_f_pointer(P%screen, scr, shape=[m])
    idx = 1
    do i = 1, n
      do k = 1, np(i)
        call wd(x(idx)); call wd(y(idx)); call wd(z(idx))
        call wd(pax(idx)); call wd(pay(idx)); call wd(paz(idx))
        call wd(pbx(idx)); call wd(pby(idx)); call wd(pbz(idx))
        call wd(al(idx))
#if MAXDER > 0
        call wd(al2(idx)); call wd(be2(idx))
#endif
        call wd(pre(idx))
        if (c_associated(P%screen)) call wd(scr(idx))
        idx = idx + 1
      end do
      if (mod(i, int(verif_nshell_simd())) == 0) then
        idx = (idx - 1 + verif_simd_len() - 1) / verif_simd_len() * verif_simd_len() + 1
      end if
    end do
    call wp(P%screen)
    call wd(P%screen_max)
    call wl(int(P%memsize, C_INT64_T))
    call wp(P%ptr)
  end subroutine

  subroutine make_pair(sh, P)
    type(c_simint_shell), intent(in), target :: sh(:)
    type(c_simint_multi_shellpair), intent(inout), target :: P
    type(c_simint_shell), allocatable, target :: AB(:)
    integer :: mode, a0, na, b0, nb, scr, n, i, clip
    double precision :: smax
    mode = ri()
    if (mode == 1) then
      a0 = ri(); na = ri(); b0 = ri(); nb = ri(); scr = ri()
      call simint_create_multi_shellpair(na, sh(a0+1:a0+na), nb, sh(b0+1:b0+nb), P, scr)
    else
      n = ri()
      allocate(AB(2*n))
      do i = 1, 2*n
        AB(i) = sh(ri() + 1)
      end do
      scr = ri()
      call simint_create_multi_shellpair2(n, AB, P, scr)
      deallocate(AB)
    end if
    clip = ri()
    if (clip >= 0) P%nshell12_clip = clip
    smax = rd()
    if (smax >= 0) P%screen_max = smax
  end subroutine

  function nc(l) result(r)
    integer, intent(in) :: l
    integer :: r
    r = (l + 1) * (l + 2) / 2
  end function

  subroutine one(ic)
    integer, intent(in) :: ic
    integer :: nsh, norm, copy, plural, i, k, zero, am, np, d, l, n, r, s1, s2, m, w, maxam, npair
    double precision :: x, y, z, tol
    double precision, allocatable :: a(:), c(:), q(:), xs(:), ys(:), zs(:), res1(:)
    type(c_simint_shell), allocatable, target :: sh(:), cp(:), us(:)
    type(c_simint_multi_shellpair), target :: P(2)
    double precision, pointer :: work(:), res(:), pa(:), pc(:)
    type(C_PTR) :: wptr, rptr
    call wi(-12345678); call wi(ic)
    nsh = ri(); norm = ri(); copy = ri(); plural = ri()
    allocate(sh(nsh), cp(nsh), us(nsh))
    if (plural == 1) then
      call simint_initialize_shells(nsh, sh)
      call simint_initialize_shells(nsh, cp)
    else
      do i = 1, nsh
        call simint_initialize_shell(sh(i))
        call simint_initialize_shell(cp(i))
      end do
    end if
    do i = 1, nsh
      zero = ri(); am = ri(); np = ri()
      x = rd(); y = rd(); z = rd()
      allocate(a(np), c(np))
      do k = 1, np
        a(k) = rd()
      end do
      do k = 1, np
        c(k) = rd()
      end do
      if (zero == 1) then
        call simint_create_zero_shell(sh(i))
      else if (zero == 2) then
        call simint_allocate_shell(np, sh(i))
        sh(i)%am = am; sh(i)%nprim = np
        sh(i)%x = x; sh(i)%y = y; sh(i)%z = z
        call c_f_pointer(sh(i)%alpha, pa, shape=[np])
        call c_f_pointer(sh(i)%coef, pc, shape=[np])
        pa(1:np) = a; pc(1:np) = c
      else
        call simint_create_shell(np, am, x, y, z, a, c, sh(i))
      end if
      deallocate(a, c)
    end do
    if (norm == 1) call simint_normalize_shells(nsh, sh)
    if (copy == 1) then
      do i = 1, nsh
        call simint_copy_shell(sh(i), cp(i))
      end do
      us = cp
    else
      us = sh
    end if
    if (norm == 2) call simint_normalize_shells(nsh, us)
    do i = 1, nsh
      call dump_shell(us(i))
    end do
    if (plural == 1) then
      call simint_initialize_multi_shellpairs(2, P)
    else
      call simint_initialize_multi_shellpair(P(1))
      call simint_initialize_multi_shellpair(P(2))
    end if
    npair = ri()
    do i = 0, npair - 1
      call make_pair(us, P(mod(i, 2) + 1))
    end do
    call dump_pair(P(1))
    call dump_pair(P(2))
    tol = rd()
    maxam = verif_maxam()
    do d = 0, min(1, int(verif_maxder()))
      do l = 0, maxam
        call wl(int(simint_eri_worksize(d, l), C_INT64_T))
        call wl(int(simint_eri_workmem(d, l), C_INT64_T))
      end do
      n = P(1)%nshell12 * P(2)%nshell12 * nc(int(P(1)%am1)) * nc(int(P(1)%am2)) * nc(int(P(2)%am1)) * nc(int(P(2)%am2))
      if (d == 1) n = n * 12
      wptr = verif_alloc(int(simint_eri_workmem(d, maxam), C_SIZE_T))
      rptr = verif_alloc(int(n * 8 + 64, C_SIZE_T))
      call c_f_pointer(wptr, work, shape=[simint_eri_worksize(d, maxam)])
      call c_f_pointer(rptr, res, shape=[n])
      res = 7d0
      if (d == 0) then
        r = simint_compute_eri(P(1), P(2), tol, work, res)
      else
        r = simint_compute_eri_deriv(int(d, C_INT), P(1), P(2), tol, work, res)
      end if
      call wi(r)
      write(11) res
      if (d == 0) then
        res = 7d0
        r = simint_compute_eri_deriv(0_C_INT, P(1), P(2), tol, work, res)
        call wi(r)
        write(11) res
      end if
      call verif_free(wptr)
      call verif_free(rptr)
    end do
    s1 = ri() + 1; s2 = ri() + 1; n = ri()
    allocate(q(n), xs(n), ys(n), zs(n))
    do i = 1, n
      q(i) = rd(); xs(i) = rd(); ys(i) = rd(); zs(i) = rd()
    end do
    m = nc(int(us(s1)%am)) * nc(int(us(s2)%am))
    allocate(res1(m))
    do w = 0, 2
      res1 = 7d0
      if (w == 0) r = simint_compute_overlap(us(s1), us(s2), res1)
      if (w == 1) r = simint_compute_ke(us(s1), us(s2), res1)
      if (w == 2) r = simint_compute_potential(n, q, xs, ys, zs, us(s1), us(s2), res1)
      call wi(r)
      write(11) res1
    end do
    if (plural == 1) then
      call simint_free_shells(nsh, sh)
      call simint_free_shells(nsh, cp)
      call simint_free_multi_shellpairs(2, P)
    else
      do i = 1, nsh
        call simint_free_shell(sh(i))
        call simint_free_shell(cp(i))
      end do
      call simint_free_multi_shellpair(P(1))
      call simint_free_multi_shellpair(P(2))
    end if
    do i = 1, nsh
      call wl(int(sh(i)%memsize, C_INT64_T)); call wp(sh(i)%ptr)
      call wl(int(cp(i)%memsize, C_INT64_T)); call wp(cp(i)%ptr)
    end do
    do i = 1, 2
      call wl(int(P(i)%memsize, C_INT64_T)); call wp(P(i)%ptr)
    end do
  end subroutine
end module

program driver
  use work_on_it
  implicit none
  character(len=2000) :: f1, f2
  integer :: ncase, ic
  call get_command_argument(1, f1)
  call get_command_argument(2, f2)
  open(unit=10, file=trim(f1), access='stream', form='unformatted', status='old', action='read')
  open(unit=11, file=trim(f2), access='stream', form='unformatted', status='replace', action='write')
  call simint_init()
  ncase = ri()
  do ic = 0, ncase - 1
    call one(ic)
  end do
  call simint_finalize()
  close(11)
end program
