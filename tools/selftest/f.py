"""behaviour-preserving rewrites of the Fortran kernels"""
import re
from lib import ref
F = "ccblade/src/bem.f90"
SRC = open("/repo/" + F).read()
K = ["C01", "C07", "C08", "C12"]
G = ["C02", "C03", "C09", "C10"]


def unit(name):
    m = re.search(r"(?ims)^subroutine %s\(.*?^end subroutine %s$" % (name, name), SRC)
    return m.group(0)


def body(name, start, new, stop=None):
    """the unit with everything from start to its end replaced"""
    u = unit(name)
    a = u.index(start)
    b = u.index(stop, a) if stop else u.lower().rindex("end subroutine")
    return (u, u[:a] + new + u[b:])


def sub(name, *pairs):
    u = v = unit(name)
    for a, b in pairs:
        assert a in v, (name, a)
        v = v.replace(a, b)
    return (u, v)


# internal function
ref("f1", F, K, body("inductionFactors", "    ! Prandtl's tip", '''    Ftip = 1.0_dp
    Fhub = 1.0_dp
    if (tipLoss) Ftip = prandtl((Rtip - r)/r)
    if (hubLoss) Fhub = prandtl((r - Rhub)/Rhub)
    F = Ftip*Fhub

    k = sigma_p*cn/(4.0_dp*F*sphi**2)
    kp = sigma_p*ct/(4.0_dp*F*sphi*cphi)

    if (phi <= 0) then
        a = merge(k/(k-1), 0.0_dp, k > 1)
    else if (k > 2.0_dp/3.0) then
        g1 = 2*F*k - (10.0_dp/9 - F)
        g2 = 2*F*k - F*(4.0_dp/3 - F)
        g3 = 2*F*k - (25.0_dp/9 - 2*F)
        if (abs(g3) >= 1e-6_dp) then
            a = (g1 - sqrt(g2))/g3
        else
            a = 1 - 1/(2*sqrt(g2))
        end if
    else
        a = k/(k + 1)
    end if

    if (.not. wakerotation) kp = 0.0_dp
    ap = 0.0_dp
    if (wakerotation) ap = kp/(1 - kp)

    lambda_r = Vy/Vx
    fzero = -cphi/lambda_r*(1 - kp)
    if (phi > 0) then
        fzero = fzero + sphi/(1 - a)
    else
        fzero = fzero + sphi*(1 - k)
    end if

contains

    pure function prandtl(x) result(loss)
        real(dp), intent(in) :: x
        real(dp) :: loss
        loss = 2.0_dp/pi*acos(exp(-B/2.0_dp*x/sphi))
    end function prandtl

'''))
# external subroutine, early return, select case
ref("f2", F, K, body("inductionFactors", "    F = Ftip * Fhub", '''    F = Ftip * Fhub

    k = sigma_p*cn/4.0_dp/F/sphi/sphi
    kp = sigma_p*ct/4.0_dp/F/sphi/cphi
    call axialInduction(phi, k, F, a)

    ap = kp/(1-kp)
    if (.not. wakerotation) then
        ap = 0.0_dp
        kp = 0.0_dp
    end if

    lambda_r = Vy/Vx
    if (.not. phi > 0) then
        fzero = sphi*(1-k) - cphi/lambda_r*(1-kp)
        return
    end if
    fzero = sphi/(1-a) - cphi/lambda_r*(1-kp)

'''), ("subroutine relativeWind(", '''subroutine axialInduction(phi, k, F, a)

    implicit none
    integer, parameter :: dp = kind(0.d0)
    real(dp), intent(in) :: phi, k, F
    real(dp), intent(out) :: a
    real(dp) :: g(3), twoFk
    integer :: region

    region = 0
    if (phi > 0 .and. k <= 2.0_dp/3.0) region = 1
    if (phi > 0 .and. k > 2.0_dp/3.0) region = 2
    select case (region)
    case (1)
        a = k/(1+k)
    case (2)
        twoFk = 2.0_dp*F*k
        g = twoFk - [10.0_dp/9 - F, (4.0_dp/3 - F)*F, 25.0_dp/9 - 2*F]
        a = 1.0_dp - 0.5_dp/sqrt(g(2))
        if (abs(g(3)) >= 1e-6_dp) a = (g(1) - sqrt(g(2)))/g(3)
    case default
        a = 0.0_dp
        if (k > 1) a = k/(k-1)
    end select
end subroutine axialInduction


subroutine relativeWind('''))
ref("f3", F, K, body("relativeWind", "    ! angle of attack", '''    real(dp) :: ux, uy
    ux = Vx*(1 - a)
    uy = Vy*(1 + ap)
    alpha = phi - theta - pitch
    W = hypot(ux, uy)
    if (abs(ap) > 10) W = ux/sin(phi)
    if (abs(a) > 10) W = uy/cos(phi)
    Re = chord*W/(mu/rho)

'''))
ref("f4", F, G, body("defineCurvature", "    ! compute total coning", '''    real(dp), dimension(n-1) :: seg
    seg = atan2(x_az(1:n-1) - x_az(2:n), z_az(2:n) - z_az(1:n-1))
    cone(1) = seg(1)
    cone(n) = seg(n-1)
    do i = 2, n-1
        cone(i) = (seg(i-1) + seg(i))/2
    end do
    s = 0.0_dp
    do i = 1, n-1
        s(i+1:) = s(i+1:) + norm2([precurve(i+1) - precurve(i), presweep(i+1) - presweep(i), r(i+1) - r(i)])
    end do

''') if False else (unit("defineCurvature"), unit("defineCurvature").replace("    integer :: i\n", "    integer :: i\n    real(dp), dimension(n-1) :: seg\n")[
    :unit("defineCurvature").replace("    integer :: i\n", "    integer :: i\n    real(dp), dimension(n-1) :: seg\n").index("    ! compute total coning")] + '''    seg = atan2(x_az(1:n-1) - x_az(2:n), z_az(2:n) - z_az(1:n-1))
    cone(1) = seg(1)
    cone(n) = seg(n-1)
    do i = 2, n-1
        cone(i) = (seg(i-1) + seg(i))/2
    end do
    s = 0.0_dp
    do i = 1, n-1
        s(i+1:) = s(i+1:) + norm2([precurve(i+1) - precurve(i), presweep(i+1) - presweep(i), r(i+1) - r(i)])
    end do

end subroutine defineCurvature'''))
ref("f5", F, G + ["C12"], body("windComponents", "    ! get section heights", '''    do i = 1, n
        associate (h => heightFromHub(i))
            h = ct*(z_az(i)*ca + sa*y_az(i)) - st*x_az(i)
            V(i) = Uinf*exp(shearExp*log(1 + h/hubHt))
        end associate
        Vwind_x(i) = (cy*st*ca + sy*sa)*sc(i) + cy*ct*cc(i)
        Vx(i) = V(i)*Vwind_x(i) - Omega*sc(i)*y_az(i)
        Vy(i) = V(i)*(cy*st*sa - sy*ca) + Omega*z_az(i)
    end do

''') if False else (unit("windComponents"), unit("windComponents").replace("    real(dp), dimension(n) :: heightFromHub", "    integer :: i\n    real(dp), dimension(n) :: heightFromHub")[
    :unit("windComponents").replace("    real(dp), dimension(n) :: heightFromHub", "    integer :: i\n    real(dp), dimension(n) :: heightFromHub").index("    ! get section heights")] + '''    do i = 1, n
        heightFromHub(i) = ct*(z_az(i)*ca + sa*y_az(i)) - st*x_az(i)
        V(i) = Uinf*(1 + heightFromHub(i)/hubHt)**shearExp
        Vwind_x(i) = (cy*st*ca + sy*sa)*sc(i) + cy*ct*cc(i)
        Vx(i) = V(i)*Vwind_x(i) - Omega*sc(i)*y_az(i)
        Vy(i) = V(i)*(cy*st*sa - sy*ca) + Omega*z_az(i)
    end do

end subroutine windComponents'''))
ref("f6", F, G, (unit("thrustTorque"), unit("thrustTorque")[:unit("thrustTorque").index("    ! local")] + '''    ! local
    real(dp), dimension(:), allocatable :: rfull, curvefull, sweepfull, Npfull, Tpfull, half
    real(dp), dimension(n+2) :: x_az, y_az, z_az, cone, s

    rfull = [Rhub, r, Rtip]
    curvefull = [0.0_dp, precurve, precurveTip]
    sweepfull = [0.0_dp, presweep, presweepTip]
    Npfull = [0.0_dp, Np, 0.0_dp]
    Tpfull = [0.0_dp, Tp, 0.0_dp]
    call defineCurvature(n+2, rfull, curvefull, sweepfull, precone, x_az, y_az, z_az, cone, s)

    ! weight of every point
    allocate(half(n+2))
    half = 0.0_dp
    half(:n+1) = 0.5_dp*(s(2:) - s(:n+1))
    half(2:) = half(2:) + 0.5_dp*(s(2:) - s(:n+1))
    T = sum(half*Npfull*cos(cone))
    Y = dot_product(half, Tpfull)
    Z = sum(half*(Npfull*sin(cone)))
    Q = dot_product(half, Tpfull*z_az)
    M = dot_product(half*z_az, Npfull)
    deallocate(half)

end subroutine thrustTorque'''))
# case, relational spellings, single-line ifs, comments
ref("f7", F, K + G, sub("inductionFactors", ("if (phi > 0) then", "IF (phi .GT. 0.0_dp) THEN"), ("if (k <= 2.0_dp/3.0) then", "IF (.not. (k .gt. 2.0_dp/3)) THEN"),
    ("        if (k > 1) then\n            a = k/(k-1)\n        else\n            a = 0.0_dp  ! dummy value\n        end if\n", "        a = 0.0_dp; if (k > 1) a = k/(k-1)\n")),
    sub("thrustTorque", ("    do i = 1, n+1\n        ds", "    trapz: do i = n+1, 1, -1\n        ds"), ("*ds\n    end do", "*ds\n    end do trapz")))
ref("f8", F, K, sub("INDUCTIONFACTORS_DV", ("  DO nd=1,nbdirs\n    lambda_rd(nd) = (vyd(nd)-vy*vxd(nd)/vx)/vx\n  END DO\n", "  lambda_rd = (vyd - vy*vxd/vx)/vx\n"),
    ("    DO nd=1,nbdirs\n      cnd(nd) = cphi*cld(nd) + cl*cphid(nd)\n      ctd(nd) = sphi*cld(nd) + cl*sphid(nd)\n    END DO\n", "    cnd(:) = cphi*cld(:) + cl*cphid(:)\n    ctd(:) = cl*sphid(:) + sphi*cld(:)\n"),
    ("      IF (g3 .GE. 0.) THEN\n        abs0 = g3\n      ELSE\n        abs0 = -g3\n      END IF\n", "      abs0 = ABS(g3)\n"),
    ("    DO nd=1,nbdirs\n      ad(nd) = (1.0-temp0)*kd(nd)/(k-1)\n    END DO\n", "    ad = -kd/(k-1)**2\n"),
    ("  DO nd=1,nbdirs\n    apd(nd) = (temp0+1.0)*kpd(nd)/(1-kp)\n  END DO\n", "  apd = kpd/(1-kp)**2\n")))
ref("f9", F, K, sub("RELATIVEWIND_DV", ("  IF (a .GE. 0.) THEN\n    abs0 = a\n  ELSE\n    abs0 = -a\n  END IF\n", "  abs0 = MAX(a, -a)\n"),
    ("  DO nd=1,nbdirs\n    red(nd) = rho*(chord*wd(nd)+w*chordd(nd))/mu\n  END DO\n  re = rho*w*chord/mu\n", "  re = rho*w*chord/mu\n  DO nd=nbdirs,1,-1\n    red(nd) = (rho/mu)*(w*chordd(nd)+wd(nd)*chord)\n  END DO\n")))
ref("f10", F, G, sub("THRUSTTORQUE_BV", ("  DO i=n+1,1,-1\n", "  DO i=1,n+1\n"),
    ("      tempb(nd) = ds*0.5_dp*qb(nd)\n      torqueb(nd, i) = torqueb(nd, i) + tempb(nd)\n      torqueb(nd, i+1) = torqueb(nd, i+1) + tempb(nd)\n", "      torqueb(nd, i:i+1) = torqueb(nd, i:i+1) + ds*0.5_dp*qb(nd)\n"),
    ("  z_azb(:, :) = 0.0_dp\n  npfullb(:, :) = 0.0_dp\n  tpfullb(:, :) = 0.0_dp\n", "  z_azb = 0\n  npfullb = 0\n  tpfullb = 0\n")))
ref("f11", F, K + G, ("subroutine inductionFactors(", '''module bem_precision
    implicit none
    integer, parameter :: wp = kind(0.d0)
    real(wp), parameter :: pi_ = 3.1415926535897932_wp
end module bem_precision


subroutine inductionFactors('''), sub("windComponents", ("    implicit none\n\n    integer, parameter :: dp = kind(0.d0)\n", "    use bem_precision, only: dp => wp, pi => pi_\n    implicit none\n"),
    ("sa, ca, pi, Omega", "sa, ca, Omega"), ("    pi = 3.1415926535897932_dp\n", "")))
ref("f12", F, K, sub("inductionFactors", ("    real(dp) :: pi, sigma_p", "    real(dp), parameter :: pi = acos(-1.0_dp)\n    real(dp) :: sigma_p"), ("    pi = 3.1415926535897932_dp\n", ""),
    ("    Ftip = 1.0_dp\n    if ( tipLoss ) then", "    if (.not. tipLoss) then\n        Ftip = 1.0_dp\n    else")))


def loc(name, *pairs, locals_=""):
    """edits plus further local declarations (placed before the first executable comment block)"""
    old, new = sub(name, *pairs)
    m = re.search(r"(?m)^    ! local\n", new)
    return old, new[:m.end()] + locals_ + new[m.end():]


WIND = unit("windComponents")
LOOP = WIND[WIND.index("    heightFromHub = (y_az"):WIND.index("end subroutine windComponents")]
ref("f13", F, G + ["C12"], loc("windComponents", (LOOP, '''    do concurrent (i = 1:n)
        associate (h => heightFromHub(i), c => ct)
            h = (y_az(i)*sa + z_az(i)*ca)*c - x_az(i)*st
        end associate
    end do
    V = shear(heightFromHub)
    forall (i = 1:n) Vwind_x(i) = V(i)*((cy*st*ca + sy*sa)*sc(i) + cy*ct*cc(i))
    block
        real(dp) :: side
        side = cy*st*sa - sy*ca
        Vwind_y = side*V
    end block
    Vx = Vwind_x - Omega*(y_az*sc)
    Vy = Vwind_y + Omega*z_az

contains

    elemental function shear(h) result(u)
        real(dp), intent(in) :: h
        real(dp) :: u
        u = Uinf*(1 + h/hubHt)**shearExp
    end function shear

'''), locals_="    integer :: i\n"))
ref("f14", F, K, loc("inductionFactors", ("    k = sigma_p*cn/4.0_dp/F/sphi/sphi\n    kp = sigma_p*ct/4.0_dp/F/sphi/cphi\n", "    call scaled()\n"),
    ("end subroutine inductionFactors", '''contains

    subroutine scaled()
        real(dp) :: s4
        s4 = sigma_p/(4.0_dp*F*sphi)
        k = s4*cn/sphi
        kp = s4*ct/cphi
    end subroutine scaled

end subroutine inductionFactors''')))
ref("f15", F, G, loc("defineCurvature", ("    s(1) = 0.0_dp\n    do i = 2, n\n", "    s(1) = 0.0_dp\n    i = 1\n    do while (i < n)\n        i = i + 1\n")) if False else
    sub("defineCurvature", ("    s(1) = 0.0_dp\n    do i = 2, n\n", "    s(1) = 0.0_dp\n    i = 1\n    do while (i < n)\n        i = i + 1\n")))
ref("f16", F, G, sub("thrustTorque", ("    do i = 1, n+1\n        ds", "    i = 0\n    do\n        i = i + 1\n        if (i > n+1) exit\n        ds"), ("    Npfull(1) = 0.0_dp\n    Npfull(2:n+1) = Np\n    Npfull(n+2) = 0.0_dp\n", "    Npfull(:) = 0.0_dp\n    Npfull(2:) = [Np, 0.0_dp]\n"),
    ("    Tpfull(1) = 0.0_dp\n    Tpfull(2:n+1) = Tp\n    Tpfull(n+2) = 0.0_dp\n", "    Tpfull = [0.0_dp, (Tp(i), i = 1, n), 0.0_dp]\n")))
ref("f17", F, K, sub("relativeWind", ("    integer, parameter :: dp = kind(0.d0)\n", ""), ("    implicit none\n", "    use, intrinsic :: iso_fortran_env, only: dp => real64\n    implicit none\n")),
    sub("inductionFactors", ("    integer, parameter :: dp = kind(0.d0)\n", "    integer, parameter :: dp = selected_real_kind(15, 307)\n")))
ref("f18", F, K, sub("relativeWind", ("    integer, parameter :: dp = kind(0.d0)\n", "    integer, parameter :: dp = kind(1.0d0)\n"), ("    W = sqrt" if False else "        W = sqrt((Vx*(1-a))**2 + (Vy*(1+ap))**2)", "        W = norm2([Vx*(1-a), Vy*(1+ap)])")))
ref("f19", F, K, sub("RELATIVEWIND_DV", ("  DO nd=1,nbdirs\n    alphad(nd) = phid(nd) - thetad(nd) - pitchd(nd)\n  END DO\n", "  FORALL (nd=1:nbdirs) alphad(nd) = phid(nd) - thetad(nd) - pitchd(nd)\n"),
    ("        IF (arg1 .EQ. 0.0) THEN\n          wd(nd) = 0.0_dp\n        ELSE\n          wd(nd) = arg1d(nd)/(2.0*temp0)\n        END IF\n", "        wd(nd) = 0.0_dp\n        IF (arg1 /= 0) wd(nd) = arg1d(nd)/(2*temp0)\n")))
ref("f20", F, G, sub("DEFINECURVATURE_DV", ("  coned(:, :) = 0.0_dp\n", "  coned = SPREAD(0.0_dp*preconed, 2, n)\n"), ("    y_azd(nd, :) = presweepd(nd, :)\n", "    DO i=1,n\n      y_azd(nd, i) = presweepd(nd, i)\n    END DO\n")))
