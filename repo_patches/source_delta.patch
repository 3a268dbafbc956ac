From 4f2bd06689e08110452f64f2cedfead76cfe81a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:52 +0000
Subject: [PATCH 01/54] fix: process noise covariance of the core states was
 not symmetric

The generated expressions for Qd gave a matrix that was neither symmetric nor
positive semi-definite and differed from the noise integral it stands for in
the p/v/q blocks.  Evaluate the integral of the discrete transition instead.
---
 .../msf_core/implementation/calcQCore.h       | 714 ++----------------
 1 file changed, 48 insertions(+), 666 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/calcQCore.h b/msf_core/include/msf_core/implementation/calcQCore.h
index 0bc5b2d..563633c 100644
--- a/msf_core/include/msf_core/implementation/calcQCore.h
+++ b/msf_core/include/msf_core/implementation/calcQCore.h
@@ -36,347 +36,21 @@ void CalcQCore(const double dt, const Eigen::Quaternion<double> & q,
                 const Eigen::MatrixBase<Derived> & n_bw,
                 Eigen::MatrixBase<DerivedQ> & Qd) {
 
-  const double q1 = q.w(), q2 = q.x(), q3 = q.y(), q4 = q.z();
-  const double ew1 = ew(0), ew2 = ew(1), ew3 = ew(2);
-  const double ea1 = ea(0), ea2 = ea(1), ea3 = ea(2);
-  const double n_a1 = n_a(0), n_a2 = n_a(1), n_a3 = n_a(2);
-  const double n_ba1 = n_ba(0), n_ba2 = n_ba(1), n_ba3 = n_ba(2);
-  const double n_w1 = n_w(0), n_w2 = n_w(1), n_w3 = n_w(2);
-  const double n_bw1 = n_bw(0), n_bw2 = n_bw(1), n_bw3 = n_bw(2);
+  // Qd = int_0^dt Fd(s) * G * Qc * G^T * Fd(s)^T ds, where Fd(s) is the discrete
+  // error state transition over s (see PredictProcessCovariance) and the noises
+  // enter through v (acc), q (gyro), b_w and b_a (bias random walks).
+  // Gauss-Legendre quadrature keeps Qd symmetric and positive semi-definite.
+  static const double nodes[4] = { 0.0694318442029737, 0.3300094782075719,
+      0.6699905217924281, 0.9305681557970263 };
+  static const double weights[4] = { 0.1739274225687269, 0.3260725774312731,
+      0.3260725774312731, 0.1739274225687269 };
 
-  const double t343 = dt * dt;
-  const double t348 = q1 * q4 * 2.0;
-  const double t349 = q2 * q3 * 2.0;
-  const double t344 = t348 - t349;
-  const double t356 = q1 * q3 * 2.0;
-  const double t357 = q2 * q4 * 2.0;
-  const double t345 = t356 + t357;
-  const double t350 = q1 * q1;
-  const double t351 = q2 * q2;
-  const double t352 = q3 * q3;
-  const double t353 = q4 * q4;
-  const double t346 = t350 + t351 - t352 - t353;
-  const double t347 = n_a1 * n_a1;
-  const double t354 = n_a2 * n_a2;
-  const double t355 = n_a3 * n_a3;
-  const double t358 = q1 * q2 * 2.0;
-  const double t359 = t344 * t344;
-  const double t360 = t345 * t345;
-  const double t361 = t346 * t346;
-  const double t363 = ea2 * t345;
-  const double t364 = ea3 * t344;
-  const double t362 = t363 + t364;
-  const double t365 = t362 * t362;
-  const double t366 = t348 + t349;
-  const double t367 = t350 - t351 + t352 - t353;
-  const double t368 = q3 * q4 * 2.0;
-  const double t369 = t356 - t357;
-  const double t370 = t350 - t351 - t352 + t353;
-  const double t371 = n_w3 * n_w3;
-  const double t372 = t358 + t368;
-  const double t373 = n_w2 * n_w2;
-  const double t374 = n_w1 * n_w1;
-  const double t375 = dt * t343 * t346 * t347 * t366 * (1.0 / 3.0);
-  const double t376 = t358 - t368;
-  const double t377 = t343 * t346 * t347 * t366 * (1.0 / 2.0);
-  const double t378 = t366 * t366;
-  const double t379 = t376 * t376;
-  const double t380 = ea1 * t367;
-  const double t391 = ea2 * t366;
-  const double t381 = t380 - t391;
-  const double t382 = ea3 * t367;
-  const double t383 = ea2 * t376;
-  const double t384 = t382 + t383;
-  const double t385 = t367 * t367;
-  const double t386 = ea1 * t376;
-  const double t387 = ea3 * t366;
-  const double t388 = t386 + t387;
-  const double t389 = ea2 * t370;
-  const double t407 = ea3 * t372;
-  const double t390 = t389 - t407;
-  const double t392 = ea1 * t372;
-  const double t393 = ea2 * t369;
-  const double t394 = t392 + t393;
-  const double t395 = ea1 * t370;
-  const double t396 = ea3 * t369;
-  const double t397 = t395 + t396;
-  const double t398 = n_ba1 * n_ba1;
-  const double t399 = n_ba2 * n_ba2;
-  const double t400 = n_ba3 * n_ba3;
-  const double t401 = dt * t343 * t345 * t355 * t370 * (1.0 / 3.0);
-  const double t402 = t401 - dt * t343 * t346 * t347 * t369 * (1.0 / 3.0)
-      - dt * t343 * t344 * t354 * t372 * (1.0 / 3.0);
-  const double t403 = dt * t343 * t354 * t367 * t372 * (1.0 / 3.0);
-  const double t404 = t403 - dt * t343 * t347 * t366 * t369 * (1.0 / 3.0)
-      - dt * t343 * t355 * t370 * t376 * (1.0 / 3.0);
-  const double t405 = t343 * t345 * t355 * t370 * (1.0 / 2.0);
-  const double t406 = dt * t343 * t362 * t373 * t397 * (1.0 / 6.0);
-  const double t421 = t343 * t346 * t347 * t369 * (1.0 / 2.0);
-  const double t422 = dt * t343 * t362 * t371 * t394 * (1.0 / 6.0);
-  const double t423 = t343 * t344 * t354 * t372 * (1.0 / 2.0);
-  const double t424 = dt * t343 * t362 * t374 * t390 * (1.0 / 6.0);
-  const double t408 = t405 + t406 - t421 - t422 - t423 - t424;
-  const double t409 = t343 * t354 * t367 * t372 * (1.0 / 2.0);
-  const double t410 = dt * t343 * t374 * t384 * t390 * (1.0 / 6.0);
-  const double t411 = dt * t343 * t373 * t388 * t397 * (1.0 / 6.0);
-  const double t463 = t343 * t355 * t370 * t376 * (1.0 / 2.0);
-  const double t464 = t343 * t347 * t366 * t369 * (1.0 / 2.0);
-  const double t465 = dt * t343 * t371 * t381 * t394 * (1.0 / 6.0);
-  const double t412 = t409 + t410 + t411 - t463 - t464 - t465;
-  const double t413 = t369 * t369;
-  const double t414 = t372 * t372;
-  const double t415 = t370 * t370;
-  const double t416 = t343 * t354 * t359 * (1.0 / 2.0);
-  const double t417 = t343 * t355 * t360 * (1.0 / 2.0);
-  const double t418 = t343 * t347 * t361 * (1.0 / 2.0);
-  const double t419 = t416 + t417 + t418 - dt * t343 * t365 * t371 * (1.0 / 6.0)
-      - dt * t343 * t365 * t373 * (1.0 / 6.0)
-      - dt * t343 * t365 * t374 * (1.0 / 6.0);
-  const double t453 = t343 * t344 * t354 * t367 * (1.0 / 2.0);
-  const double t454 = t343 * t345 * t355 * t376 * (1.0 / 2.0);
-  const double t420 = t377 - t453 - t454;
-  const double t426 = ew2 * t362;
-  const double t427 = ew3 * t362;
-  const double t425 = t426 - t427;
-  const double t428 = dt * t365;
-  const double t429 = ew1 * ew1;
-  const double t430 = ew2 * ew2;
-  const double t431 = ew3 * ew3;
-  const double t432 = t430 + t431;
-  const double t433 = t362 * t432;
-  const double t434 = ew1 * t343 * t365;
-  const double t435 = t429 + t431;
-  const double t436 = t362 * t435;
-  const double t443 = ew2 * ew3 * t362;
-  const double t437 = t433 + t436 - t443;
-  const double t438 = ew1 * t362 * t394;
-  const double t511 = ew1 * t362 * t397;
-  const double t439 = t438 - t511;
-  const double t440 = t343 * t439 * (1.0 / 2.0);
-  const double t441 = t429 + t430;
-  const double t442 = t362 * t441;
-  const double t444 = t390 * t432;
-  const double t445 = ew2 * t394;
-  const double t446 = ew3 * t397;
-  const double t447 = t445 + t446;
-  const double t448 = ew1 * ew2 * t362;
-  const double t449 = ew1 * ew3 * t362;
-  const double t450 = ew1 * ew3 * t362 * (1.0 / 2.0);
-  const double t451 = dt * t362;
-  const double t452 = ew1 * t343 * t362 * (1.0 / 2.0);
-  const double t455 = dt * t343 * t362 * t374 * t384 * (1.0 / 6.0);
-  const double t456 = t343 * t347 * t378 * (1.0 / 2.0);
-  const double t457 = t343 * t355 * t379 * (1.0 / 2.0);
-  const double t458 = t381 * t381;
-  const double t459 = t384 * t384;
-  const double t460 = t343 * t354 * t385 * (1.0 / 2.0);
-  const double t461 = t388 * t388;
-  const double t462 = t456 + t457 + t460 - dt * t343 * t371 * t458 * (1.0 / 6.0)
-      - dt * t343 * t374 * t459 * (1.0 / 6.0)
-      - dt * t343 * t373 * t461 * (1.0 / 6.0);
-  const double t466 = t433 + t442 - t443;
-  const double t467 = ew1 * t362 * t388;
-  const double t468 = ew1 * t362 * t381;
-  const double t469 = t467 + t468;
-  const double t470 = t343 * t469 * (1.0 / 2.0);
-  const double t471 = t384 * t432;
-  const double t472 = ew2 * t381;
-  const double t479 = ew3 * t388;
-  const double t473 = t472 - t479;
-  const double t474 = -t433 + t448 + t449;
-  const double t475 = dt * t343 * t346 * t366 * t398 * (1.0 / 3.0);
-  const double t476 = dt * t346 * t347 * t366;
-  const double t477 = ew2 * ew3 * t381;
-  const double t492 = t388 * t435;
-  const double t478 = t471 + t477 - t492;
-  const double t480 = t472 - t479;
-  const double t481 = ew1 * ew3 * t381;
-  const double t482 = ew1 * ew2 * t388;
-  const double t483 = t471 + t481 + t482;
-  const double t484 = ew2 * ew3 * t388;
-  const double t486 = t381 * t441;
-  const double t485 = t471 + t484 - t486;
-  const double t487 = t394 * t441;
-  const double t488 = ew2 * ew3 * t397;
-  const double t489 = t444 + t487 + t488;
-  const double t490 = t397 * t435;
-  const double t491 = ew2 * ew3 * t394;
-  const double t493 = ew1 * t381 * t397;
-  const double t541 = ew1 * t388 * t394;
-  const double t494 = t493 - t541;
-  const double t495 = t343 * t494 * (1.0 / 2.0);
-  const double t496 = ew1 * ew2 * t397;
-  const double t527 = ew1 * ew3 * t394;
-  const double t497 = t444 + t496 - t527;
-  const double t498 = ew2 * ew3 * t381 * (1.0 / 2.0);
-  const double t499 = ew1 * t343 * t381 * (1.0 / 2.0);
-  const double t500 = t384 * t432 * (1.0 / 2.0);
-  const double t501 = ew2 * ew3 * t388 * (1.0 / 2.0);
-  const double t502 = n_bw1 * n_bw1;
-  const double t503 = n_bw3 * n_bw3;
-  const double t504 = t343 * t347 * t413 * (1.0 / 2.0);
-  const double t505 = t343 * t354 * t414 * (1.0 / 2.0);
-  const double t506 = t397 * t397;
-  const double t507 = t390 * t390;
-  const double t508 = t343 * t355 * t415 * (1.0 / 2.0);
-  const double t509 = t394 * t394;
-  const double t510 = t504 + t505 + t508 - dt * t343 * t373 * t506 * (1.0 / 6.0)
-      - dt * t343 * t371 * t509 * (1.0 / 6.0)
-      - dt * t343 * t374 * t507 * (1.0 / 6.0);
-  const double t512 = -t444 + t490 + t491;
-  const double t513 = t397 * t437 * (1.0 / 2.0);
-  const double t514 = t362 * t394 * t429;
-  const double t515 = dt * t362 * t397;
-  const double t516 = t362 * t489 * (1.0 / 2.0);
-  const double t517 = t394 * t466 * (1.0 / 2.0);
-  const double t518 = t362 * t397 * t429;
-  const double t519 = t516 + t517 + t518;
-  const double t520 = dt * t362 * t394;
-  const double t521 = t440 + t520 - dt * t343 * t519 * (1.0 / 3.0);
-  const double t522 = t371 * t521;
-  const double t523 = t362 * t447;
-  const double t524 = t390 * t425;
-  const double t525 = t523 + t524;
-  const double t526 = t343 * t525 * (1.0 / 2.0);
-  const double t528 = t425 * t447;
-  const double t529 = t390 * t474 * (1.0 / 2.0);
-  const double t530 = t528 + t529 - t362 * t497 * (1.0 / 2.0);
-  const double t531 = dt * t343 * t530 * (1.0 / 3.0);
-  const double t532 = dt * t362 * t390;
-  const double t533 = t526 + t531 + t532;
-  const double t534 = t374 * t533;
-  const double t535 = dt * t343 * t345 * t370 * t400 * (1.0 / 3.0);
-  const double t536 = dt * t345 * t355 * t370;
-  const double t537 = t381 * t489 * (1.0 / 2.0);
-  const double t538 = t388 * t397 * t429;
-  const double t539 = t537 + t538 - t394 * t485 * (1.0 / 2.0);
-  const double t540 = dt * t343 * t539 * (1.0 / 3.0);
-  const double t542 = t495 + t540 - dt * t381 * t394;
-  const double t543 = t388 * t512 * (1.0 / 2.0);
-  const double t544 = t381 * t394 * t429;
-  const double t545 = t543 + t544 - t397 * t478 * (1.0 / 2.0);
-  const double t546 = dt * t343 * t545 * (1.0 / 3.0);
-  const double t547 = t495 + t546 - dt * t388 * t397;
-  const double t548 = t373 * t547;
-  const double t549 = t384 * t447;
-  const double t550 = t549 - t390 * t473;
-  const double t551 = t343 * t550 * (1.0 / 2.0);
-  const double t552 = t384 * t497 * (1.0 / 2.0);
-  const double t553 = t390 * t483 * (1.0 / 2.0);
-  const double t554 = t447 * t473;
-  const double t555 = t552 + t553 + t554;
-  const double t556 = dt * t384 * t390;
-  const double t557 = t551 + t556 - dt * t343 * t555 * (1.0 / 3.0);
-  const double t558 = dt * t343 * t367 * t372 * t399 * (1.0 / 3.0);
-  const double t559 = dt * t354 * t367 * t372;
-  const double t560 = t548 + t558 + t559 - t371 * t542 - t374 * t557
-      - dt * t347 * t366 * t369 - dt * t355 * t370 * t376
-      - dt * t343 * t366 * t369 * t398 * (1.0 / 3.0)
-      - dt * t343 * t370 * t376 * t400 * (1.0 / 3.0);
-  const double t561 = ew1 * t343 * t394 * t397;
-  const double t562 = ew1 * t343 * t397 * (1.0 / 2.0);
-  const double t563 = n_bw2 * n_bw2;
-  const double t564 = dt * t343 * t362 * t374 * (1.0 / 6.0);
-  const double t565 = dt * t343 * t374 * t390 * (1.0 / 6.0);
-  const double t566 = ew1 * ew2 * t362 * (1.0 / 2.0);
-  const double t567 = -t433 + t450 + t566;
-  const double t568 = dt * t343 * t567 * (1.0 / 3.0);
-  const double t569 = t343 * t425 * (1.0 / 2.0);
-  const double t570 = t451 + t568 + t569;
-  const double t571 = dt * t343 * t362 * t373 * t432 * (1.0 / 6.0);
-  const double t572 = dt * t343 * t362 * t371 * t432 * (1.0 / 6.0);
-  const double t573 = t571 + t572 - t374 * t570;
-  const double t574 = ew1 * ew2 * t397 * (1.0 / 2.0);
-  const double t575 = t444 + t574 - ew1 * ew3 * t394 * (1.0 / 2.0);
-  const double t576 = t343 * t447 * (1.0 / 2.0);
-  const double t577 = dt * t390;
-  const double t578 = t576 + t577 - dt * t343 * t575 * (1.0 / 3.0);
-  const double t579 = dt * t343 * t371 * t394 * t432 * (1.0 / 6.0);
-  const double t580 = t579 - t374 * t578
-      - dt * t343 * t373 * t397 * t432 * (1.0 / 6.0);
-  const double t581 = dt * t343 * t373 * t388 * (1.0 / 6.0);
-  const double t582 = t362 * t432 * (1.0 / 2.0);
-  const double t583 = ew2 * ew3 * t362 * (1.0 / 2.0);
-  const double t584 = t362 * t429;
-  const double t585 = t583 + t584;
-  const double t586 = ew3 * t473;
-  const double t587 = ew1 * ew2 * t384 * (1.0 / 2.0);
-  const double t588 = t586 + t587;
-  const double t589 = dt * t343 * t588 * (1.0 / 3.0);
-  const double t590 = t374 * (t589 - ew3 * t343 * t384 * (1.0 / 2.0));
-  const double t591 = t388 * t429;
-  const double t592 = t498 + t591;
-  const double t593 = dt * t343 * t592 * (1.0 / 3.0);
-  const double t594 = t499 + t593;
-  const double t595 = -t492 + t498 + t500;
-  const double t596 = dt * t343 * t595 * (1.0 / 3.0);
-  const double t597 = dt * t388;
-  const double t598 = -t499 + t596 + t597;
-  const double t599 = t590 - t371 * t594 - t373 * t598;
-  const double t600 = t397 * t429;
-  const double t601 = ew2 * ew3 * t394 * (1.0 / 2.0);
-  const double t602 = ew1 * t343 * t394 * (1.0 / 2.0);
-  const double t603 = ew3 * t447;
-  const double t604 = t603 - ew1 * ew2 * t390 * (1.0 / 2.0);
-  const double t605 = dt * t343 * t604 * (1.0 / 3.0);
-  const double t606 = ew3 * t343 * t390 * (1.0 / 2.0);
-  const double t607 = t605 + t606;
-  const double t608 = t374 * t607;
-  const double t609 = t390 * t432 * (1.0 / 2.0);
-  const double t610 = dt * t397;
-  const double t611 = t430 * (1.0 / 2.0);
-  const double t612 = t431 * (1.0 / 2.0);
-  const double t613 = t611 + t612;
-  const double t614 = ew1 * t343 * (1.0 / 2.0);
-  const double t615 = dt * t343 * t362 * t371 * (1.0 / 6.0);
-  const double t616 = dt * t343 * t371 * t381 * (1.0 / 6.0);
-  const double t617 = dt * t343 * t371 * t394 * (1.0 / 6.0);
-  const double t618 = ew2 * t425;
-  const double t619 = t450 + t618;
-  const double t620 = dt * t343 * t619 * (1.0 / 3.0);
-  const double t621 = ew2 * t343 * t362 * (1.0 / 2.0);
-  const double t622 = t620 + t621;
-  const double t623 = dt * t343 * t585 * (1.0 / 3.0);
-  const double t624 = t381 * t429;
-  const double t625 = t501 + t624;
-  const double t626 = dt * t343 * t625 * (1.0 / 3.0);
-  const double t627 = ew1 * t343 * t388 * (1.0 / 2.0);
-  const double t628 = ew2 * t473;
-  const double t629 = t628 - ew1 * ew3 * t384 * (1.0 / 2.0);
-  const double t630 = dt * t343 * t629 * (1.0 / 3.0);
-  const double t631 = t630 - ew2 * t343 * t384 * (1.0 / 2.0);
-  const double t632 = -t486 + t500 + t501;
-  const double t633 = dt * t343 * t632 * (1.0 / 3.0);
-  const double t634 = dt * t381;
-  const double t635 = t627 + t633 + t634;
-  const double t636 = ew2 * t447;
-  const double t637 = ew1 * ew3 * t390 * (1.0 / 2.0);
-  const double t638 = t636 + t637;
-  const double t639 = dt * t343 * t638 * (1.0 / 3.0);
-  const double t640 = ew2 * t343 * t390 * (1.0 / 2.0);
-  const double t641 = t639 + t640;
-  const double t642 = t394 * t429;
-  const double t643 = ew2 * ew3 * t397 * (1.0 / 2.0);
-  const double t644 = t487 + t609 + t643;
-  const double t645 = dt * t343 * t644 * (1.0 / 3.0);
-  const double t646 = t562 + t645 - dt * t394;
-  const double t647 = t371 * t646;
-  const double t648 = ew2 * t343 * (1.0 / 2.0);
-  const double t649 = dt * ew1 * ew3 * t343 * (1.0 / 6.0);
-  const double t650 = t648 + t649;
-  const double t651 = t374 * t650;
-  const double t652 = t651 - dt * t343 * t371 * t613 * (1.0 / 3.0);
-  const double t653 = dt * ew2 * ew3 * t343 * (1.0 / 6.0);
-  const double t654 = t614 + t653;
-  const double t655 = t371 * t654;
-  const double t656 = dt * t343 * t397 * t563 * (1.0 / 6.0);
-  const double t657 = dt * ew1 * t343 * t563 * (1.0 / 6.0);
-  const double t658 = dt * t343 * t369 * t398 * (1.0 / 6.0);
-  const double t659 = t343 * t369 * t398 * (1.0 / 2.0);
-  const double t660 = dt * t343 * t344 * t399 * (1.0 / 6.0);
-  const double t661 = t343 * t344 * t399 * (1.0 / 2.0);
-  const double t662 = dt * t343 * t376 * t400 * (1.0 / 6.0);
-  const double t663 = t343 * t376 * t400 * (1.0 / 2.0);
+  typedef Eigen::Matrix<double, 3, 3> Mat3;
+  const Mat3 C_eq = q.toRotationMatrix();
+  const Mat3 w_sk = Skew(ew);
+  const Mat3 w_sk2 = w_sk * w_sk;
+  const Mat3 Ca3 = C_eq * Skew(ea);
+  const Mat3 eye3 = Mat3::Identity();
 
   enum {
     idxstartcorr_p = msf_tmp::GetStartIndexInCorrection<StateSequence_T,
@@ -391,332 +65,40 @@ void CalcQCore(const double dt, const Eigen::Quaternion<double> & q,
         StateDefinition_T::b_a>::value
   };
 
-  Qd(idxstartcorr_p + 0, idxstartcorr_p + 0) = dt * t343 * t347 * t361
-      * (1.0 / 3.0) + dt * t343 * t354 * t359 * (1.0 / 3.0)
-      + dt * t343 * t355 * t360 * (1.0 / 3.0);
-  Qd(idxstartcorr_p + 0, idxstartcorr_p + 1) = t375
-      - dt * t343 * t345 * t355 * (t358 - q3 * q4 * 2.0) * (1.0 / 3.0)
-      - dt * t343 * t344 * t354 * t367 * (1.0 / 3.0);
-  Qd(idxstartcorr_p + 0, idxstartcorr_p + 2) = t402;
-  Qd(idxstartcorr_p + 0, idxstartcorr_v + 0) = t419;
-  Qd(idxstartcorr_p + 0, idxstartcorr_v + 1) = t420;
-  Qd(idxstartcorr_p + 0, idxstartcorr_v + 2) = t408;
-  Qd(idxstartcorr_p + 0, idxstartcorr_q + 0) = t564;
-  Qd(idxstartcorr_p + 0, idxstartcorr_q + 2) = t615;
-  Qd(idxstartcorr_p + 0, idxstartcorr_b_a + 0) = dt * t343 * t346 * t398
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 0, idxstartcorr_b_a + 1) = t660;
-  Qd(idxstartcorr_p + 0, idxstartcorr_b_a + 2) = dt * t343 * t345 * t400
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_p + 0) = t375
-      - dt * t343 * t344 * t354 * t367 * (1.0 / 3.0)
-      - dt * t343 * t345 * t355 * t376 * (1.0 / 3.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_p + 1) = dt * t343 * t347 * t378
-      * (1.0 / 3.0) + dt * t343 * t355 * t379 * (1.0 / 3.0)
-      + dt * t343 * t354 * t385 * (1.0 / 3.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_p + 2) = t404;
-  Qd(idxstartcorr_p + 1, idxstartcorr_v + 0) = t377 + t455
-      - t343 * t344 * t354 * t367 * (1.0 / 2.0)
-      - t343 * t345 * t355 * t376 * (1.0 / 2.0)
-      - dt * t343 * t362 * t371 * t381 * (1.0 / 6.0)
-      - dt * t343 * t362 * t373 * t388 * (1.0 / 6.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_v + 1) = t462;
-  Qd(idxstartcorr_p + 1, idxstartcorr_v + 2) = t412;
-  Qd(idxstartcorr_p + 1, idxstartcorr_q + 0) = dt * t343 * t374 * t384
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_q + 1) = t581;
-  Qd(idxstartcorr_p + 1, idxstartcorr_q + 2) = t616;
-  Qd(idxstartcorr_p + 1, idxstartcorr_b_a + 0) = dt * t343 * t366 * t398
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_b_a + 1) = dt * t343 * t367 * t399
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 1, idxstartcorr_b_a + 2) = t662;
-  Qd(idxstartcorr_p + 2, idxstartcorr_p + 0) = t402;
-  Qd(idxstartcorr_p + 2, idxstartcorr_p + 1) = t404;
-  Qd(idxstartcorr_p + 2, idxstartcorr_p + 2) = dt * t343 * t347 * t413
-      * (1.0 / 3.0) + dt * t343 * t354 * t414 * (1.0 / 3.0)
-      + dt * t343 * t355 * t415 * (1.0 / 3.0);
-  Qd(idxstartcorr_p + 2, idxstartcorr_v + 0) = t408;
-  Qd(idxstartcorr_p + 2, idxstartcorr_v + 1) = t412;
-  Qd(idxstartcorr_p + 2, idxstartcorr_v + 2) = t510;
-  Qd(idxstartcorr_p + 2, idxstartcorr_q + 0) = t565;
-  Qd(idxstartcorr_p + 2, idxstartcorr_q + 1) = dt * t343 * t373 * t397
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 2, idxstartcorr_q + 2) = t617;
-  Qd(idxstartcorr_p + 2, idxstartcorr_b_a + 0) = t658;
-  Qd(idxstartcorr_p + 2, idxstartcorr_b_a + 1) = dt * t343 * t372 * t399
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_p + 2, idxstartcorr_b_a + 2) = dt * t343 * t370 * t400
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_p + 0) = t419;
-  Qd(idxstartcorr_v + 0, idxstartcorr_p + 1) = t420;
-  Qd(idxstartcorr_v + 0, idxstartcorr_p + 2) = t408;
-  Qd(idxstartcorr_v + 0, idxstartcorr_v + 0) =
-      t374
-          * (t428 + t343 * t362 * t425
-              + dt * t343 * (t362 * (t448 + t449 - t362 * t432) + t425 * t425)
-                  * (1.0 / 3.0))
-          + t373
-              * (t428 - t434
-                  + dt * t343 * (t365 * t429 - t362 * t437) * (1.0 / 3.0))
-          + t371
-              * (t428 + t434
-                  + dt * t343
-                      * (t365 * t429 - t362 * (t433 + t442 - ew2 * ew3 * t362))
-                      * (1.0 / 3.0)) + dt * t347 * t361 + dt * t354 * t359
-          + dt * t355 * t360 + dt * t343 * t359 * t399 * (1.0 / 3.0)
-          + dt * t343 * t361 * t398 * (1.0 / 3.0)
-          + dt * t343 * t360 * t400 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_v + 1) = t475 + t476
-      - dt * t344 * t354 * t367 - dt * t345 * t355 * t376
-      - dt * t343 * t344 * t367 * t399 * (1.0 / 3.0)
-      - dt * t343 * t345 * t376 * t400 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_v + 2) = t522 + t534 + t535 + t536
-      - t373
-          * (t440 + t515
-              - dt * t343
-                  * (t513 + t514
-                      + t362 * (t490 + t491 - t390 * t432) * (1.0 / 2.0))
-                  * (1.0 / 3.0)) - dt * t346 * t347 * t369
-      - dt * t344 * t354 * t372 - dt * t343 * t346 * t369 * t398 * (1.0 / 3.0)
-      - dt * t343 * t344 * t372 * t399 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_q + 0) = t573;
-  Qd(idxstartcorr_v + 0, idxstartcorr_q + 2) = -t371
-      * (t451 + t452
-          - dt * t343 * (t442 + t582 - ew2 * ew3 * t362 * (1.0 / 2.0))
-              * (1.0 / 3.0)) - t374 * t622
-      + t373 * (t452 - dt * t343 * t585 * (1.0 / 3.0));
-  Qd(idxstartcorr_v + 0, idxstartcorr_b_w + 0) = dt * t343 * t362 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_b_w + 2) = dt * t343 * t362 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_b_a + 0) = t343 * t346 * t398
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_v + 0, idxstartcorr_b_a + 1) = t661;
-  Qd(idxstartcorr_v + 0, idxstartcorr_b_a + 2) = t343 * t345 * t400
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_p + 0) = t377 - t453 - t454 + t455
-      - dt * t343 * t362 * t371 * t381 * (1.0 / 6.0)
-      - dt * t343 * t362 * t373 * t388 * (1.0 / 6.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_p + 1) = t462;
-  Qd(idxstartcorr_v + 1, idxstartcorr_p + 2) = t412;
-  Qd(idxstartcorr_v + 1, idxstartcorr_v + 0) = t475 + t476
-      - t374
-          * (t343 * (t384 * t425 - t362 * t473) * (1.0 / 2.0)
-              - dt * t343
-                  * (t362 * t483 * (1.0 / 2.0) - t384 * t474 * (1.0 / 2.0)
-                      + t425 * t473) * (1.0 / 3.0) + dt * t362 * t384)
-      + t371
-          * (t470 + dt * t362 * t381
-              + dt * t343
-                  * (t362 * t485 * (1.0 / 2.0) - t381 * t466 * (1.0 / 2.0)
-                      + t362 * t388 * t429) * (1.0 / 3.0))
-      + t373
-          * (-t470 + dt * t362 * t388
-              + dt * t343
-                  * (t388 * t437 * (-1.0 / 2.0) + t362 * t478 * (1.0 / 2.0)
-                      + t362 * t381 * t429) * (1.0 / 3.0))
-      - dt * t344 * t354 * t367 - dt * t345 * t355 * t376
-      - dt * t343 * t344 * t367 * t399 * (1.0 / 3.0)
-      - dt * t343 * t345 * t376 * t400 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_v + 1) = -t374
-      * (-dt * t459 + dt * t343 * (t384 * t483 - t480 * t480) * (1.0 / 3.0)
-          + t343 * t384 * t473)
-      + t373
-          * (dt * t461 + dt * t343 * (t388 * t478 + t429 * t458) * (1.0 / 3.0)
-              - ew1 * t343 * t381 * t388)
-      + t371
-          * (dt * t458 + dt * t343 * (t381 * t485 + t429 * t461) * (1.0 / 3.0)
-              + ew1 * t343 * t381 * t388) + dt * t347 * t378 + dt * t355 * t379
-      + dt * t354 * t385 + dt * t343 * t378 * t398 * (1.0 / 3.0)
-      + dt * t343 * t385 * t399 * (1.0 / 3.0)
-      + dt * t343 * t379 * t400 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_v + 2) = t560;
-  Qd(idxstartcorr_v + 1, idxstartcorr_q + 0) = -t374
-      * (-dt * t384 + t343 * t473 * (1.0 / 2.0)
-          + dt * t343
-              * (t471 + ew1 * ew2 * t388 * (1.0 / 2.0)
-                  + ew1 * ew3 * t381 * (1.0 / 2.0)) * (1.0 / 3.0))
-      + dt * t343 * t371 * t381 * t432 * (1.0 / 6.0)
-      + dt * t343 * t373 * t388 * t432 * (1.0 / 6.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_q + 1) = t599;
-  Qd(idxstartcorr_v + 1, idxstartcorr_q + 2) = -t374 * t631 - t371 * t635
-      - t373 * (t626 - ew1 * t343 * t388 * (1.0 / 2.0));
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_w + 0) = dt * t343 * t384 * t502
-      * (1.0 / 6.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_w + 1) = dt * t343 * t388 * t563
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_w + 2) = dt * t343 * t381 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_a + 0) = t343 * t366 * t398
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_a + 1) = t343 * t367 * t399
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_v + 1, idxstartcorr_b_a + 2) = t663;
-  Qd(idxstartcorr_v + 2, idxstartcorr_p + 0) = t408;
-  Qd(idxstartcorr_v + 2, idxstartcorr_p + 1) = t412;
-  Qd(idxstartcorr_v + 2, idxstartcorr_p + 2) = t510;
-  Qd(idxstartcorr_v + 2, idxstartcorr_v + 0) = t522 + t534 + t535 + t536
-      - t373
-          * (t440 + t515
-              - dt * t343 * (t513 + t514 + t362 * t512 * (1.0 / 2.0))
-                  * (1.0 / 3.0)) - dt * t346 * t347 * t369
-      - dt * t344 * t354 * t372 - dt * t343 * t346 * t369 * t398 * (1.0 / 3.0)
-      - dt * t343 * t344 * t372 * t399 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 2, idxstartcorr_v + 1) = t560;
-  Qd(idxstartcorr_v + 2, idxstartcorr_v + 2) = -t371
-      * (t561 - dt * t509
-          + dt * t343 * (t394 * t489 - t429 * t506) * (1.0 / 3.0))
-      + t373
-          * (t561 + dt * t506
-              - dt * t343 * (t397 * t512 - t429 * t509) * (1.0 / 3.0))
-      + t374
-          * (dt * t507 - dt * t343 * (t390 * t497 - t447 * t447) * (1.0 / 3.0)
-              + t343 * t390 * t447) + dt * t347 * t413 + dt * t354 * t414
-      + dt * t355 * t415 + dt * t343 * t398 * t413 * (1.0 / 3.0)
-      + dt * t343 * t399 * t414 * (1.0 / 3.0)
-      + dt * t343 * t400 * t415 * (1.0 / 3.0);
-  Qd(idxstartcorr_v + 2, idxstartcorr_q + 0) = t580;
-  Qd(idxstartcorr_v + 2, idxstartcorr_q + 1) = t608
-      + t371
-          * (dt * t343 * (t600 - ew2 * ew3 * t394 * (1.0 / 2.0)) * (1.0 / 3.0)
-              - ew1 * t343 * t394 * (1.0 / 2.0))
-      + t373
-          * (t602 + t610
-              - dt * t343 * (t490 + t601 - t390 * t432 * (1.0 / 2.0))
-                  * (1.0 / 3.0));
-  Qd(idxstartcorr_v + 2, idxstartcorr_q + 2) = t647 - t374 * t641
-      - t373
-          * (t562
-              + dt * t343 * (t642 - ew2 * ew3 * t397 * (1.0 / 2.0))
-                  * (1.0 / 3.0));
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_w + 0) = dt * t343 * t390 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_w + 1) = t656;
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_w + 2) = dt * t343 * t394 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_a + 0) = t659;
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_a + 1) = t343 * t372 * t399
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_v + 2, idxstartcorr_b_a + 2) = t343 * t370 * t400
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_q + 0, idxstartcorr_p + 0) = t564;
-  Qd(idxstartcorr_q + 0, idxstartcorr_p + 2) = t565;
-  Qd(idxstartcorr_q + 0, idxstartcorr_v + 0) = t573;
-  Qd(idxstartcorr_q + 0, idxstartcorr_v + 2) = t580;
-  Qd(idxstartcorr_q + 0, idxstartcorr_q + 0) = t374
-      * (dt - dt * t343 * t432 * (1.0 / 3.0)) + dt * t343 * t502 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 0, idxstartcorr_q + 2) = t652;
-  Qd(idxstartcorr_q + 0, idxstartcorr_b_w + 0) = t343 * t502 * (-1.0 / 2.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_p + 0) = dt * t343 * t362 * t373
-      * (1.0 / 6.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_p + 1) = t581;
-  Qd(idxstartcorr_q + 1, idxstartcorr_p + 2) = dt * t343 * t373 * t397
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_v + 0) = -t371 * (t452 + t623)
-      - t374
-          * (dt * t343 * (t566 - ew3 * t425) * (1.0 / 3.0)
-              - ew3 * t343 * t362 * (1.0 / 2.0))
-      + t373 * (-t451 + t452 + dt * t343 * (t436 + t582 - t583) * (1.0 / 3.0));
-  Qd(idxstartcorr_q + 1, idxstartcorr_v + 1) = t599;
-  Qd(idxstartcorr_q + 1, idxstartcorr_v + 2) = t608
-      + t373 * (t602 + t610 - dt * t343 * (t490 + t601 - t609) * (1.0 / 3.0))
-      - t371 * (t602 - dt * t343 * (t600 - t601) * (1.0 / 3.0));
-  Qd(idxstartcorr_q + 1, idxstartcorr_q + 0) = -t374
-      * (ew3 * t343 * (1.0 / 2.0) - dt * ew1 * ew2 * t343 * (1.0 / 6.0))
-      - dt * t343 * t373 * t613 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_q + 1) = t373
-      * (dt - dt * t343 * t435 * (1.0 / 3.0)) + dt * t343 * t563 * (1.0 / 3.0)
-      + dt * t343 * t371 * t429 * (1.0 / 3.0)
-      + dt * t343 * t374 * t431 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_q + 2) = t655
-      - t373 * (t614 - dt * ew2 * ew3 * t343 * (1.0 / 6.0))
-      - dt * ew2 * ew3 * t343 * t374 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_b_w + 0) = dt * ew3 * t343 * t502
-      * (1.0 / 6.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_b_w + 1) = t343 * t563 * (-1.0 / 2.0);
-  Qd(idxstartcorr_q + 1, idxstartcorr_b_w + 2) = dt * ew1 * t343 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_q + 2, idxstartcorr_p + 0) = t615;
-  Qd(idxstartcorr_q + 2, idxstartcorr_p + 1) = t616;
-  Qd(idxstartcorr_q + 2, idxstartcorr_p + 2) = t617;
-  Qd(idxstartcorr_q + 2, idxstartcorr_v + 0) = -t374 * t622
-      - t371 * (t451 + t452 - dt * t343 * (t442 + t582 - t583) * (1.0 / 3.0))
-      + t373 * (t452 - t623);
-  Qd(idxstartcorr_q + 2, idxstartcorr_v + 1) = -t374 * t631 - t371 * t635
-      - t373 * (t626 - t627);
-  Qd(idxstartcorr_q + 2, idxstartcorr_v + 2) = t647 - t374 * t641
-      - t373 * (t562 + dt * t343 * (t642 - t643) * (1.0 / 3.0));
-  Qd(idxstartcorr_q + 2, idxstartcorr_q + 0) = t652;
-  Qd(idxstartcorr_q + 2, idxstartcorr_q + 1) = t655 - t373 * (t614 - t653)
-      - dt * ew2 * ew3 * t343 * t374 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 2, idxstartcorr_q + 2) = t371
-      * (dt - dt * t343 * t441 * (1.0 / 3.0)) + dt * t343 * t503 * (1.0 / 3.0)
-      + dt * t343 * t373 * t429 * (1.0 / 3.0)
-      + dt * t343 * t374 * t430 * (1.0 / 3.0);
-  Qd(idxstartcorr_q + 2, idxstartcorr_b_w + 0) = dt * ew2 * t343 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_q + 2, idxstartcorr_b_w + 1) = t657;
-  Qd(idxstartcorr_q + 2, idxstartcorr_b_w + 2) = t343 * t503 * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_w + 0, idxstartcorr_v + 0) = dt * t343 * t362 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 0, idxstartcorr_v + 2) = dt * t343 * t390 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 0, idxstartcorr_q + 0) = t343 * t502 * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_w + 0, idxstartcorr_q + 2) = dt * ew2 * t343 * t502
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 0, idxstartcorr_b_w + 0) = dt * t502;
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_v + 0) = dt * t343 * t362 * t563
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_v + 1) = dt * t343 * t388 * t563
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_v + 2) = t656;
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_q + 1) = t343 * t563 * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_q + 2) = t657;
-  Qd(idxstartcorr_b_w + 1, idxstartcorr_b_w + 1) = dt * t563;
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_v + 0) = dt * t343 * t362 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_v + 1) = dt * t343 * t381 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_v + 2) = dt * t343 * t394 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_q + 1) = dt * ew1 * t343 * t503
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_q + 2) = t343 * t503 * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_w + 2, idxstartcorr_b_w + 2) = dt * t503;
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_p + 0) = dt * t343 * t346 * t398
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_p + 1) = dt * t343 * t366 * t398
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_p + 2) = t658;
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_v + 0) = t343 * t346 * t398
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_v + 1) = t343 * t366 * t398
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_v + 2) = t659;
-  Qd(idxstartcorr_b_a + 0, idxstartcorr_b_a + 0) = dt * t398;
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_p + 0) = t660;
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_p + 1) = dt * t343 * t367 * t399
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_p + 2) = dt * t343 * t372 * t399
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_v + 0) = t661;
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_v + 1) = t343 * t367 * t399
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_v + 2) = t343 * t372 * t399
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 1, idxstartcorr_b_a + 1) = dt * t399;
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_p + 0) = dt * t343 * t345 * t400
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_p + 1) = t662;
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_p + 2) = dt * t343 * t370 * t400
-      * (-1.0 / 6.0);
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_v + 0) = t343 * t345 * t400
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_v + 1) = t663;
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_v + 2) = t343 * t370 * t400
-      * (-1.0 / 2.0);
-  Qd(idxstartcorr_b_a + 2, idxstartcorr_b_a + 2) = dt * t400;
 
+  Eigen::Matrix<double, 12, 1> Qc;
+  Qc << n_a.cwiseAbs2(), n_w.cwiseAbs2(), n_bw.cwiseAbs2(), n_ba.cwiseAbs2();
+
+  Eigen::Matrix<double, 15, 15> Qcore = Eigen::Matrix<double, 15, 15>::Zero();
+  // Columns of G: n_a, n_w, n_bw, n_ba.
+  Eigen::Matrix<double, 15, 12> G = Eigen::Matrix<double, 15, 12>::Zero();
+  G.template block<3, 3>(idxstartcorr_v, 0) = C_eq;
+  G.template block<3, 3>(idxstartcorr_b_w, 6) = eye3;
+  G.template block<3, 3>(idxstartcorr_b_a, 9) = eye3;
+  for (int i = 0; i < 4; ++i) {
+    const double s = dt * nodes[i];
+    const double s_p2_2 = s * s * 0.5;
+    const double s_p3_6 = s_p2_2 * s / 3.0;
+    const double s_p4_24 = s_p3_6 * s * 0.25;
+    const double s_p5_120 = s_p4_24 * s * 0.2;
+    const Mat3 A = Ca3 * (-s_p2_2 * eye3 + s_p3_6 * w_sk - s_p4_24 * w_sk2);
+    const Mat3 B = Ca3 * (s_p3_6 * eye3 - s_p4_24 * w_sk + s_p5_120 * w_sk2);
+    const Mat3 E = eye3 - s * w_sk + s_p2_2 * w_sk2;
+    const Mat3 F = -s * eye3 + s_p2_2 * w_sk - s_p3_6 * w_sk2;
+
+    G.template block<3, 3>(idxstartcorr_p, 0) = s * C_eq;
+    G.template block<3, 3>(idxstartcorr_p, 3) = A;
+    G.template block<3, 3>(idxstartcorr_p, 6) = B;
+    G.template block<3, 3>(idxstartcorr_p, 9) = -s_p2_2 * C_eq;
+    G.template block<3, 3>(idxstartcorr_v, 3) = Ca3 * F;
+    G.template block<3, 3>(idxstartcorr_v, 6) = -A;
+    G.template block<3, 3>(idxstartcorr_v, 9) = -s * C_eq;
+    G.template block<3, 3>(idxstartcorr_q, 3) = E;
+    G.template block<3, 3>(idxstartcorr_q, 6) = F;
+
+    Qcore += weights[i] * dt * G * Qc.asDiagonal() * G.transpose();
+  }
+  Qd.template block<15, 15>(idxstartcorr_p, idxstartcorr_p) = 0.5
+      * (Qcore + Qcore.transpose());
 }
 #endif  // CALCQ_H_
-- 
2.43.0


From ecf5331a39f3a65bfbc5044b04d5a0c91aa63f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:57 +0000
Subject: [PATCH 02/54] fix: covariance symmetrisation read entries it had
 already overwritten

P = 0.5 * (P + P.transpose()) aliases: the result is only half symmetrised,
which left the initial covariance visibly asymmetric.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h     | 2 +-
 .../include/msf_core/implementation/msf_measurement_inl.h   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 7742cdf..fa425a7 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -85,7 +85,7 @@ void MSF_Core<EKFState_T>::SetPCore(
             -0.0002, -0.0002, -0.0004, -0.0001, 0.0003, 0.0001, -0.0001, -0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0000, 0.0010, 0.0000,
             -0.0000, 0.0000, -0.0001, 0.0000, 0.0000, -0.0001, -0.0000, -0.0000, -0.0000, 0.0000, 0.0000, -0.0000, 0.0000, 0.0000, 0.0001;
 
-  P_core = 0.5 * (P_core + P_core.transpose());
+  P_core = 0.5 * (P_core + P_core.transpose()).eval();
   P.template block<coreErrorStates, coreErrorStates>(0, 0) = P_core;
 }
 
diff --git a/msf_core/include/msf_core/implementation/msf_measurement_inl.h b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
index 70bf1b0..6ed64c0 100644
--- a/msf_core/include/msf_core/implementation/msf_measurement_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
@@ -74,7 +74,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = 0.5 * (P + P.transpose()).eval();
 
   core.ApplyCorrection(state, correction_);
 }
@@ -118,7 +118,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   P = KH * P * KH.transpose() + K * R_delayed * K.transpose();
 
   // Make sure P stays symmetric.
-  P = 0.5 * (P + P.transpose());
+  P = 0.5 * (P + P.transpose()).eval();
 
   core.ApplyCorrection(state, correction_);
 }
@@ -192,7 +192,7 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrectionRelative(
 
   // Make sure P stays symmetric.
   // TODO (slynen): EV, set Evalues<eps to zero, then reconstruct.
-  state_new->P = 0.5 * (state_new->P + state_new->P.transpose());
+  state_new->P = 0.5 * (state_new->P + state_new->P.transpose()).eval();
 
   core.ApplyCorrection(state_new, correction_);
 }
-- 
2.43.0


From 6b018ec79b7a69f9ef5040486c658328351ecab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:57 +0000
Subject: [PATCH 03/54] fix: quaternion integration skipped the third order
 term of its power series

OmegaMean was squared in every iteration, so the terms added were M, M^2/2,
M^4/6, M^8/24.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index fa425a7..9a46622 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -362,10 +362,11 @@ void MSF_Core<EKFState_T>::PropagateState(shared_ptr<EKFState_T>& state_old,
   Matrix4 MatExp;
   MatExp.setIdentity();
   OmegaMean *= 0.5 * dt;
+  Matrix4 OmegaMeanPower = OmegaMean;
   for (int i = 1; i < 5; i++) {  // Can be made fourth order or less to save cycles.
     div *= i;
-    MatExp = MatExp + OmegaMean / div;
-    OmegaMean *= OmegaMean;
+    MatExp = MatExp + OmegaMeanPower / div;
+    OmegaMeanPower *= OmegaMean;
   }
 
   // First oder quat integration matrix.
-- 
2.43.0


From 26447cea49ee5471c2a13f22038c3a5a105f9e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 04/54] fix: accumulated state transition multiplied the steps
 in reverse order

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 9a46622..b40ca2f 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -436,7 +436,7 @@ void MSF_Core<EKFState_T>::GetAccumulatedStateTransitionStochasticCloning(
       MSF_Core<EKFState_T>::nErrorStatesAtCompileTime> F_type;
   F = F_type::Identity();
   for (; it != itend; ++it) {
-    F = F * it->second->Fd;
+    F = it->second->Fd * F;
   }
 }
 
-- 
2.43.0


From fb054adb0debc9ae55f91b7f91e8b9d622ac29b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 05/54] fix: sorted container stepped in front of its first
 element

Decrementing begin() is undefined; with one or two elements it came back to
begin() itself, so the closest element could be the wrong one and looking for
the previous measurement of a sensor could run forever or return a wrong one.
---
 .../msf_core/implementation/msf_core_inl.h     | 18 +++++++-----------
 .../include/msf_core/msf_sortedContainer.h     |  6 ++++--
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index b40ca2f..928c3be 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -721,22 +721,18 @@ MSF_Core<EKFState_T>::GetPreviousMeasurement(
     double time, int sensorID) {
   typename measurementBufferT::iterator_T it = MeasurementBuffer_
       .GetIteratorAtValue(time);
-  if (it->second->time != time) {
+  if (it == MeasurementBuffer_.GetIteratorEnd() || it->second->time != time) {
     MSF_WARN_STREAM("GetPreviousMeasurement: Error invalid iterator at value");
     return MeasurementBuffer_.GetInvalid();
   }
-  --it;
-  typename measurementBufferT::iterator_T itbeforebegin = MeasurementBuffer_
-      .GetIteratorBeforeBegin();
-  while (it != itbeforebegin
-      && (it->second->time != time && it->second->sensorID_ != sensorID)) {
+  while (it != MeasurementBuffer_.GetIteratorBegin()) {
     --it;
+    if (it->second->sensorID_ == sensorID) {
+      return it->second;
+    }
   }
-  if (it == itbeforebegin) {
-    MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
-    return MeasurementBuffer_.GetInvalid();
-  }
-  return it->second;
+  MSF_WARN_STREAM("GetPreviousMeasurement: Error hit before begin");
+  return MeasurementBuffer_.GetInvalid();
 }
 
 template<typename EKFState_T>
diff --git a/msf_core/include/msf_core/msf_sortedContainer.h b/msf_core/include/msf_core/msf_sortedContainer.h
index fc0bd83..d5f9d04 100644
--- a/msf_core/include/msf_core/msf_sortedContainer.h
+++ b/msf_core/include/msf_core/msf_sortedContainer.h
@@ -109,8 +109,7 @@ class SortedContainer {
    * \brief Returns the iterator before the beginning of the internal container.
    */
   inline typename ListT::iterator GetIteratorBeforeBegin() {
-    typename ListT::iterator it = stateList.begin();
-    return --it;
+    return stateList.end();  // Decrementing begin() is undefined.
   }
 
   /**
@@ -166,6 +165,9 @@ class SortedContainer {
   inline typename ListT::iterator GetIteratorClosestBefore(
       const double& statetime) {
     typename ListT::iterator it = stateList.lower_bound(statetime);
+    if (it == stateList.begin()) {
+      return GetIteratorBeforeBegin();
+    }
     --it;
     return it;
   }
-- 
2.43.0


From 59199c360a76e0a856db704ede68858dfe5f1f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 06/54] fix: IMU propagation kept an iterator to a state
 removed by the time-gap path

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 928c3be..11f7048 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -167,6 +167,8 @@ void MSF_Core<EKFState_T>::ProcessIMU(
           2, "large time-gap re-initializing to last state\n");
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
           lastState->time, currentState->time);
+      // The entry it_last_IMU pointed to has been removed from the buffer.
+      it_last_IMU = stateBuffer_.GetIteratorAtValue(tmp);
       time_P_propagated = currentState->time;
       return;  // // early abort // // (if timegap too big)
     }
-- 
2.43.0


From f4559d876690fdb510460b5cb866468bf2b58ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 07/54] fix: a discarded measurement re-applied the one already
 in the buffer

The measurement buffer keeps one measurement per time stamp.  When a second one
with the same stamp was discarded, the first one was applied again.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 11f7048..f6871a6 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -631,6 +631,10 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   // Add this measurement to the buffer and get an iterator to it.
   typename measurementBufferT::iterator_T it_meas =
       MeasurementBuffer_.Insert(measurement);
+  // There already is a measurement at this time, this one was discarded.
+  if (it_meas->second != measurement) {
+    return;
+  }
   // Get an iterator the the end of the measurement buffer.
   typename measurementBufferT::iterator_T it_meas_end = MeasurementBuffer_
       .GetIteratorEnd();
-- 
2.43.0


From ff0cd71b4fdd31f99b9ade1c67335955bc18867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 08/54] fix: covariance kept earlier updates when a delayed
 measurement is rejected

After a rejected measurement the states are propagated again and the buffered
later measurements are applied again, but the covariances still contained the
first application of these measurements.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index f6871a6..5798d92 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -666,6 +666,11 @@ void MSF_Core<EKFState_T>::AddMeasurement(
     // time.
     it_meas->second->Apply(state, *this);
     timer_meas_apply.Stop();
+    // The measurement might have been rejected: the states from here on are
+    // propagated again in any case, so their covariances have to follow.
+    if (time_P_propagated > state->time) {
+      time_P_propagated = state->time;
+    }
     // Make sure to propagate to next measurement or up to now if no more
     // measurements. Propagate from current state.
     it_curr = stateBuffer_.GetIteratorAtValue(state);
-- 
2.43.0


From 5f8ce99197eb1380f06f6e150eda84ce0907db1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:41 +0000
Subject: [PATCH 09/54] fix: buffer clean-up removed measurements while they
 were being applied

The clean-up ran inside GetClosestState and could erase the measurement and
state AddMeasurement holds iterators to.  Run it after the update.
---
 .../include/msf_core/implementation/msf_core_inl.h  | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 5798d92..7716fd1 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -724,6 +724,13 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   PropPToState(latestState);  // Get the latest covariance.
 
   usercalc_.PublishStateAfterUpdate(latestState);
+
+  static int janitorRun = 0;
+  if (janitorRun++ > 100) {
+    // Remove very old states and measurements from the buffers.
+    CleanUpBuffers();
+    janitorRun = 0;
+  }
 }
 
 template<typename EKFState_T>
@@ -826,12 +833,6 @@ shared_ptr<EKFState_T> MSF_Core<EKFState_T>::GetClosestState(double tstamp) {
     return stateBuffer_.GetInvalid();  // Early abort.
   }
 
-  static int janitorRun = 0;
-  if (janitorRun++ > 100) {
-    // Remove very old states and measurements from the buffers.
-    CleanUpBuffers();
-    janitorRun = 0;
-  }
   return closestState;
 }
 
-- 
2.43.0


From 41c29a46cedebafa7d89643daa619a5aa22efb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:34 +0000
Subject: [PATCH 10/54] fix: pose update ignored scale and vision frame
 rotation in the Jacobian of p_wv

The predicted position is C_wv * (p - p_wv + C_q * p_ic) * L, its derivative
with respect to p_wv is -C_wv * L.
---
 .../msf_updates/pose_sensor_handler/pose_measurement.h        | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index a64e726..e251d9e 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -247,12 +247,10 @@ struct PoseMeasurement : public PoseMeasurementBase {
             (C_wv * C_q * state.Get<StateLIdx>()(0)).eval();  //p_ic
 
 
-    // TODO (slynen): Check scale commenting
     H.block<3, 3>(0, kIdxstartcorr_pwv) =
         driftwvposfix ?
             Eigen::Matrix<double, 3, 3>::Zero() :
-            (-Eigen::Matrix<double, 3, 3>::Identity()
-            /* * state.Get<StateLIdx>()(0)*/).eval();  //p_wv
+            (-C_wv * state.Get<StateLIdx>()(0)).eval();  //p_wv
 
     // Attitude.
     H.block<3, 3>(3, kIdxstartcorr_q) = C_ci;  // q
-- 
2.43.0


From f087874f5cfa04c524323b73f19c78ec9549ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:27 +0000
Subject: [PATCH 11/54] fix: pose direction was ignored together with fixed
 covariance

pose_measurement_world_sensor = false has to invert the measured pose no matter
where the covariance comes from.
---
 .../pose_sensor_handler/pose_measurement.h    | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index e251d9e..488fe9f 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -93,23 +93,23 @@ struct PoseMeasurement : public PoseMeasurementBase {
       R_.block<3, 3>(0, 3) = Eigen::Matrix<double, 3, 3>::Zero();
       R_.block<3, 3>(3, 0) = Eigen::Matrix<double, 3, 3>::Zero();
       R_(6, 6) = 1e-6;  // q_wv yaw-measurement noise
+    }
 
-      /*************************************************************************************/
-      // Use this if your pose sensor is ethzasl_ptam (www.ros.org/wiki/ethzasl_ptam)
-      // ethzasl_ptam publishes the camera pose as the world seen from the camera.
-      if (!measurement_world_sensor_) {
-        Eigen::Matrix<double, 3, 3> C_zq = z_q_.toRotationMatrix();
-        z_q_ = z_q_.conjugate();
-        z_p_ = -C_zq.transpose() * z_p_;
+    /*************************************************************************************/
+    // Use this if your pose sensor is ethzasl_ptam (www.ros.org/wiki/ethzasl_ptam)
+    // ethzasl_ptam publishes the camera pose as the world seen from the camera.
+    if (!measurement_world_sensor_) {
+      Eigen::Matrix<double, 3, 3> C_zq = z_q_.toRotationMatrix();
+      z_q_ = z_q_.conjugate();
+      z_p_ = -C_zq.transpose() * z_p_;
 
-        Eigen::Matrix<double, 6, 6> C_cov(Eigen::Matrix<double, 6, 6>::Zero());
-        C_cov.block<3, 3>(0, 0) = C_zq;
-        C_cov.block<3, 3>(3, 3) = C_zq;
+      Eigen::Matrix<double, 6, 6> C_cov(Eigen::Matrix<double, 6, 6>::Zero());
+      C_cov.block<3, 3>(0, 0) = C_zq;
+      C_cov.block<3, 3>(3, 3) = C_zq;
 
-        R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
-      }
-      /*************************************************************************************/
+      R_.block<6, 6>(0, 0) = C_cov.transpose() * R_.block<6, 6>(0, 0) * C_cov;
     }
+    /*************************************************************************************/
   }
  public:
   EIGEN_MAKE_ALIGNED_OPERATOR_NEW
-- 
2.43.0


From 0fa9880c9eae01d7559bba1b10e8ec681c199166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:27 +0000
Subject: [PATCH 12/54] fix: pose outlier test counted the yaw of the vision
 frame as innovation

The pseudo measurement of the q_wv yaw is disabled in the Jacobian, but its
residual still entered the Mahalanobis distance with a variance of 1e-6, so that
every pose was rejected as soon as q_wv had a yaw component.
---
 .../msf_updates/pose_sensor_handler/pose_measurement.h    | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 488fe9f..3562332 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -312,11 +312,9 @@ struct PoseMeasurement : public PoseMeasurementBase {
           * state.Get<StateDefinition_T::q>()
           * state.Get<StateQicIdx>()).conjugate() * z_q_;
       r_old.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
-      // Vision world yaw drift.
-      q_err = state.Get<StateQwvIdx>();
-
-      r_old(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
-          / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
+      // Vision world yaw drift: not measured, see the disabled line in
+      // CalculateH. A residual here would only count as an outlier.
+      r_old(6, 0) = 0;
 
       if (!CheckForNumeric(r_old, "r_old")) {
         MSF_ERROR_STREAM("r_old: "<<r_old);
-- 
2.43.0


From b13e0ad3c56ed55f55204c4bbc11f2c6b46e013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:32 +0000
Subject: [PATCH 13/54] fix: maximum of recorded durations started at the
 smallest positive value

---
 msf_timing/include/msf_timing/Timer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_timing/include/msf_timing/Timer.h b/msf_timing/include/msf_timing/Timer.h
index 85049b9..e7e7ec1 100755
--- a/msf_timing/include/msf_timing/Timer.h
+++ b/msf_timing/include/msf_timing/Timer.h
@@ -38,7 +38,7 @@ class Accumulator {
         window_sum_(0),
         sum_(0),
         min_(std::numeric_limits < T > ::max()),
-        max_(std::numeric_limits < T > ::min()) {
+        max_(std::numeric_limits < T > ::lowest()) {
   }
 
   void Add(T sample) {
-- 
2.43.0


From 9b78abe9ebce63a8aa6f5001b6b0581f162640d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:02 +0000
Subject: [PATCH 14/54] fix: printed durations lost their minutes and hours

---
 msf_timing/src/Timer.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msf_timing/src/Timer.cc b/msf_timing/src/Timer.cc
index 7482420..cf9a779 100755
--- a/msf_timing/src/Timer.cc
+++ b/msf_timing/src/Timer.cc
@@ -160,10 +160,19 @@ double Timing::GetHz(std::string const& tag) {
 }
 
 std::string Timing::SecondsToTimeString(double seconds) {
+  // Units which are not shown are contained in the next smaller one.
+#if defined(SM_TIMING_SHOW_MINUTES)
   double secs = fmod(seconds, 60);
+#elif defined(SM_TIMING_SHOW_HOURS)
+  double secs = fmod(seconds, 3600);
+#else
+  double secs = seconds;
+#endif
   int minutes = (seconds / 60);
   int hours = (seconds / 3600);
+#ifdef SM_TIMING_SHOW_HOURS
   minutes = minutes - (hours * 60);
+#endif
 
   char buffer[256];
   snprintf(buffer, sizeof(buffer),
-- 
2.43.0


From 7badee09f400d917343be9434befc29e7b6d1280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:02 +0000
Subject: [PATCH 15/54] fix: throttled log statements ignored fractions of a
 second

---
 msf_core/include/msf_core/msf_macros.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/msf_core/include/msf_core/msf_macros.h b/msf_core/include/msf_core/msf_macros.h
index b83b71d..8ba007b 100644
--- a/msf_core/include/msf_core/msf_macros.h
+++ b/msf_core/include/msf_core/msf_macros.h
@@ -118,10 +118,10 @@
       std::chrono::time_point<std::chrono::system_clock> __log_stream_throttle__now__ = \
           std::chrono::system_clock::now(); \
       if (MSF_UNLIKELY(__log_stream_throttle__last_hit__ + rate <= \
-         std::chrono::duration_cast<std::chrono::seconds>( \
+         std::chrono::duration_cast<std::chrono::duration<double> >( \
          __log_stream_throttle__now__.time_since_epoch()).count())) { \
-        __log_stream_throttle__last_hit__ = std::chrono::duration_cast< \
-        std::chrono::seconds>(__log_stream_throttle__now__.time_since_epoch()).count(); \
+        __log_stream_throttle__last_hit__ = std::chrono::duration_cast<\
+        std::chrono::duration<double> >(__log_stream_throttle__now__.time_since_epoch()).count(); \
         MSF_INFO_STREAM(x); \
       } \
     } while(0)
@@ -132,10 +132,10 @@
       std::chrono::time_point<std::chrono::system_clock> __log_stream_throttle__now__ = \
       std::chrono::system_clock::now(); \
       if (MSF_UNLIKELY(__log_stream_throttle__last_hit__ + rate <= \
-        std::chrono::duration_cast<std::chrono::seconds>( \
+        std::chrono::duration_cast<std::chrono::duration<double> >( \
         __log_stream_throttle__now__.time_since_epoch()).count())) { \
         __log_stream_throttle__last_hit__ = \
-        std::chrono::duration_cast<std::chrono::seconds>( \
+        std::chrono::duration_cast<std::chrono::duration<double> >( \
         __log_stream_throttle__now__.time_since_epoch()).count(); \
         MSF_WARN_STREAM(x); \
       } \
@@ -147,10 +147,10 @@
       std::chrono::time_point<std::chrono::system_clock> __log_stream_throttle__now__ = \
       std::chrono::system_clock::now(); \
       if (MSF_UNLIKELY(__log_stream_throttle__last_hit__ + rate <= \
-        std::chrono::duration_cast<std::chrono::seconds>(\
+        std::chrono::duration_cast<std::chrono::duration<double> >(\
         __log_stream_throttle__now__.time_since_epoch()).count())) { \
         __log_stream_throttle__last_hit__ = \
-        std::chrono::duration_cast<std::chrono::seconds>\
+        std::chrono::duration_cast<std::chrono::duration<double> >\
         (__log_stream_throttle__now__.time_since_epoch()).count(); \
         MSF_ERROR_STREAM(x); \
       } \
-- 
2.43.0


From e26334f0c445197176355bcd2a71366434703dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:02 +0000
Subject: [PATCH 16/54] fix: median of a vector with run-time size read in
 front of its data

---
 msf_core/include/msf_core/msf_tools.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msf_core/include/msf_core/msf_tools.h b/msf_core/include/msf_core/msf_tools.h
index ffb1141..318e81b 100644
--- a/msf_core/include/msf_core/msf_tools.h
+++ b/msf_core/include/msf_core/msf_tools.h
@@ -35,9 +35,9 @@ typename Eigen::MatrixBase<D>::Scalar GetMedian(
       // Copy so we don't sort the original vector.
       Eigen::MatrixBase<D>::ColsAtCompileTime> m = data;
 
-  if (Eigen::MatrixBase<D>::SizeAtCompileTime) {
+  if (m.size()) {
     double * begin = m.data();
-    double * end = m.data() + m.SizeAtCompileTime;
+    double * end = m.data() + m.size();
     double * middle = begin + static_cast<int>(std::floor((end - begin) / 2));
     std::nth_element(begin, middle, end);
     return *middle;
-- 
2.43.0


From 4dfa38e348b30ded1fae21bacb1e168fa86b6020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:03 +0000
Subject: [PATCH 17/54] fix: numeric check skipped matrices with run-time size

---
 msf_core/include/msf_core/eigen_utils.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/msf_core/include/msf_core/eigen_utils.h b/msf_core/include/msf_core/eigen_utils.h
index 5c343ca..eb6d1c7 100644
--- a/msf_core/include/msf_core/eigen_utils.h
+++ b/msf_core/include/msf_core/eigen_utils.h
@@ -113,10 +113,8 @@ Eigen::Quaternion<typename Derived::Scalar> QuaternionFromSmallAngle(
 template<class D>
 bool CheckForNumeric(const Eigen::MatrixBase<D> & mat,
                      const std::string & info) {
-  enum {
-    rows = Eigen::MatrixBase < D > ::RowsAtCompileTime,
-    cols = Eigen::MatrixBase < D > ::ColsAtCompileTime
-  };
+  const int rows = mat.rows();
+  const int cols = mat.cols();
 
   for (int i = 0; i < rows; ++i) {
     for (int j = 0; j < cols; ++j) {
-- 
2.43.0


From d2dce7975c5ef03cb44be87f9c62b838dc5b69f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:21 +0000
Subject: [PATCH 18/54] fix: vertical GPS reference correction was applied
 along the earth axis

---
 msf_core/src/lib/gps_conversion.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msf_core/src/lib/gps_conversion.cc b/msf_core/src/lib/gps_conversion.cc
index c3ea1ec..299b9fd 100644
--- a/msf_core/src/lib/gps_conversion.cc
+++ b/msf_core/src/lib/gps_conversion.cc
@@ -95,7 +95,9 @@ msf_core::Vector3 GPSConversion::WGS84ToENU(const double latitude,
 void GPSConversion::AdjustReference(const double z_correction) {
 
   MSF_WARN_STREAM("z-ref old: "<< ecef_ref_point_(2));
-  ecef_ref_point_(2) += z_correction;
+  // The correction is along the local vertical, the reference is in ECEF.
+  ecef_ref_point_ += ecef_ref_orientation_.conjugate()
+      * msf_core::Vector3(0, 0, z_correction);
   MSF_WARN_STREAM("z-ref new: "<< ecef_ref_point_(2));
 }
 
-- 
2.43.0


From 147e035cdf2ce4b221fa256d4dd98986451aff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:19 +0000
Subject: [PATCH 19/54] fix: accessors of Q blocks and of initial values did
 not compile

---
 msf_core/include/msf_core/implementation/msf_state_inl.h | 2 +-
 msf_core/include/msf_core/msf_measurement.h              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_state_inl.h b/msf_core/include/msf_core/implementation/msf_state_inl.h
index 9309d20..df0343d 100644
--- a/msf_core/include/msf_core/implementation/msf_state_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_state_inl.h
@@ -105,7 +105,7 @@ template<int INDEX>
 inline const typename msf_tmp::StripReference<
     typename boost::fusion::result_of::at_c<stateVector_T, INDEX>::type>::result_t::Q_T&
 GenericState_T<stateVector_T, StateDefinition_T>::GetQBlock() const {
-  return boost::fusion::at < boost::mpl::int_<INDEX> > (statevars).Q_;
+  return boost::fusion::at < boost::mpl::int_<INDEX> > (statevars).Q;
 }
 
 /// Assembles a PoseWithCovarianceStamped message from the state
diff --git a/msf_core/include/msf_core/msf_measurement.h b/msf_core/include/msf_core/msf_measurement.h
index c089072..90a00c6 100644
--- a/msf_core/include/msf_core/msf_measurement.h
+++ b/msf_core/include/msf_core/msf_measurement.h
@@ -213,7 +213,7 @@ class MSF_InitMeasurement : public MSF_MeasurementBase<EKFState_T> {
    */
   template<int INDEX>
   void ResetStateInitValue() {
-    InitState.template get<INDEX>().hasResetValue = false;
+    InitState.template GetStateVariable<INDEX>().hasResetValue = false;
   }
 
   /**
@@ -224,7 +224,7 @@ class MSF_InitMeasurement : public MSF_MeasurementBase<EKFState_T> {
   const typename msf_tmp::StripReference<typename boost::fusion::result_of::at_c
   <StateSequence_T, INDEX >::type>::result_t::value_t&
   GetStateInitValue() const {
-    return InitState.template get<INDEX>();
+    return InitState.template Get<INDEX>();
   }
 
   virtual void Apply(shared_ptr<EKFState_T> stateWithCovariance, MSF_Core<EKFState_T>& core);
-- 
2.43.0


From 9ca2766dbaa0b0fa95eb47f40db061e41808c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:56 +0000
Subject: [PATCH 20/54] fix: Jacobians of the spherical measurements ignored
 lever arm and attitude

The Jacobians were evaluated at the position of the IMU instead of the tracked
point and with the transposed rotation matrix.
---
 .../spherical_measurement.h                       | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 3d127f5..702be8f 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -120,10 +120,13 @@ struct AngleMeasurement : public AngleMeasurementBase {
     if (fixed_p_pos_imu)
       state_in->ClearCrossCov<StateDefinition_T::p_ip>();
 
+    // Rotation from the body to the world frame and the position of the tracked
+    // point, whose spherical coordinates are measured.
     Eigen::Matrix<double, 3, 3> C_q = state.Get<StateDefinition_T::q>()
-        .conjugate().toRotationMatrix();
-    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>();
+        .toRotationMatrix();
     Eigen::Matrix<double, 3, 1> p_ip = state.Get<StateDefinition_T::p_ip>();
+    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>()
+        + C_q * p_ip;
     Eigen::Matrix<double, 2, 3> dz_dp;
     dz_dp(0, 0) = (p_(0, 0) * p_(2, 0) * 1.0
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0)))
@@ -387,9 +390,9 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
 
     H.setZero();
 
-    // Get rotation matrices.
+    // Rotation from the body to the world frame.
     Eigen::Matrix<double, 3, 3> C_q = state.Get<StateDefinition_T::q>()
-        .conjugate().toRotationMatrix();
+        .toRotationMatrix();
 
     // Preprocess for elements in H matrix.
     // Get indices of states in error vector.
@@ -410,8 +413,10 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
     if (fixed_p_pos_imu)
       state_in->ClearCrossCov<StateDefinition_T::p_ip>();
 
-    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>();
+    // Position of the tracked point, whose distance is measured.
     Eigen::Matrix<double, 3, 1> p_ip = state.Get<StateDefinition_T::p_ip>();
+    Eigen::Matrix<double, 3, 1> p_ = state.Get<StateDefinition_T::p>()
+        + C_q * p_ip;
     Eigen::Matrix<double, 1, 3> dz_dp;
     dz_dp(0, 0) = p_(0, 0) * 1.0
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
-- 
2.43.0


From 20be9da2ee4d06ab4f6d0feaedacc71197d25b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:56 +0000
Subject: [PATCH 21/54] fix: spherical updates moved a fixed p_ip

Only the cross covariances were cleared, the measurement Jacobian still had the
columns of p_ip, so that its own covariance gave it a correction.
---
 .../spherical_position_sensor/spherical_measurement.h       | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 702be8f..9f42696 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -244,7 +244,8 @@ struct AngleMeasurement : public AngleMeasurementBase {
         / (p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0));
     H.block<2, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<2, 3>(0, idxstartcorr_q_) = dz_dq;
-    H.block<2, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
+    if (!fixed_p_pos_imu)
+      H.block<2, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
 
   }
 
@@ -464,7 +465,8 @@ struct DistanceMeasurement : public DistanceMeasurementBase {
         / sqrt(p_(0, 0) * p_(0, 0) + p_(1, 0) * p_(1, 0) + p_(2, 0) * p_(2, 0));
     H.block<1, 3>(0, idxstartcorr_p_) = dz_dp;
     H.block<1, 3>(0, idxstartcorr_q_) = dz_dq;
-    H.block<1, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
+    if (!fixed_p_pos_imu)
+      H.block<1, 3>(0, idxstartcorr_p_pi_) = dz_dp_ip;
   }
 
   /**
-- 
2.43.0


From d8c78cebde732b24fed44e3f539cedf454149953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:56 +0000
Subject: [PATCH 22/54] fix: predicted azimuth was wrong on the negative x axis

With y == 0 and x < 0 none of the quadrant cases applied and the azimuth was
predicted as 0; with x == y == 0 it was NaN.
---
 .../spherical_position_sensor/spherical_measurement.h    | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
index 9f42696..f8f46fc 100644
--- a/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
+++ b/msf_updates/include/msf_updates/spherical_position_sensor/spherical_measurement.h
@@ -276,14 +276,7 @@ struct AngleMeasurement : public AngleMeasurementBase {
           z_carth(0, 0) * z_carth(0, 0) + z_carth(1, 0) * z_carth(1, 0)
               + z_carth(2, 0) * z_carth(2, 0));
       double theta_old = acos(z_carth(2, 0) / radius_old);
-      double phi_old = atan(z_carth(1, 0) / z_carth(0, 0));
-      // Handle all exeptions that occur when transforming in spherical coordinates.
-      if (z_carth(0, 0) < 0 && z_carth(1, 0) < 0) {
-        phi_old -= M_PI;
-      }
-      if (z_carth(0, 0) < 0 && z_carth(1, 0) > 0) {
-        phi_old += M_PI;
-      }
+      double phi_old = atan2(z_carth(1, 0), z_carth(0, 0));
 
       msf_core::Vector2 z_spherical;
       z_spherical << theta_old, phi_old;
-- 
2.43.0


From bbf5e36553592c2d0b14ed0957e1da2416cadd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:56 +0000
Subject: [PATCH 23/54] fix: spherical position application never subscribed to
 the IMU

Its manager had no IMU handler, so that no state was ever propagated.
---
 msf_updates/src/spherical_msf/spherical_sensormanager.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/msf_updates/src/spherical_msf/spherical_sensormanager.h b/msf_updates/src/spherical_msf/spherical_sensormanager.h
index 5e1c586..6446dbb 100644
--- a/msf_updates/src/spherical_msf/spherical_sensormanager.h
+++ b/msf_updates/src/spherical_msf/spherical_sensormanager.h
@@ -21,6 +21,7 @@
 
 #include <msf_core/msf_core.h>
 #include <msf_core/msf_sensormanagerROS.h>
+#include <msf_core/msf_IMUHandler_ROS.h>
 #include "msf_statedef.hpp"
 #include <msf_updates/spherical_position_sensor/spherical_sensorhandler.h>
 #include <msf_updates/spherical_position_sensor/spherical_measurement.h>
@@ -45,6 +46,9 @@ class SensorManager : public msf_core::MSF_SensorManagerROS<
 
   SensorManager(
       ros::NodeHandle pnh = ros::NodeHandle("~/spherical_position_sensor")) {
+    imu_handler_.reset(
+        new msf_core::IMUHandler_ROS<msf_updates::EKFState>(*this, "msf_core",
+                                                            "imu_handler"));
     angle_handler_.reset(
         new AngleSensorHandler_T(*this, "", "spherical_position_sensor"));
     AddHandler(angle_handler_);
@@ -65,6 +69,7 @@ class SensorManager : public msf_core::MSF_SensorManagerROS<
   }
 
  private:
+  shared_ptr<msf_core::IMUHandler_ROS<msf_updates::EKFState> > imu_handler_;
   boost::shared_ptr<AngleSensorHandler_T> angle_handler_;
   boost::shared_ptr<DistanceSensorHandler_T> distance_handler_;
 
-- 
2.43.0


From 3d6830200797e207d1e99bba9493690d5e7c052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:34 +0000
Subject: [PATCH 24/54] fix: position_pose application ignored the configured
 noise of p_ip

---
 .../src/position_pose_msf/position_pose_sensormanager.h       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
index e285368..bbfe165 100644
--- a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
+++ b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
@@ -257,6 +257,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         config_.pose_noise_p_ic);
     const msf_core::Vector1 n_L = msf_core::Vector1::Constant(
         config_.pose_noise_scale);
+    const msf_core::Vector3 npipv = msf_core::Vector3::Constant(
+        config_.position_noise_p_ip);
 
     // Compute the blockwise Q values and store them with the states,
     // these then get copied by the core to the correct places in Qd.
@@ -270,6 +272,8 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
         (dt * npicv.cwiseProduct(npicv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_ip>() =
+        (dt * npipv.cwiseProduct(npipv)).asDiagonal();
   }
 
   virtual void SetStateCovariance(
-- 
2.43.0


From 80fa5be511c2fca4cede8aecaeb98bb0a1b3c8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:34 +0000
Subject: [PATCH 25/54] fix: pose_pressure application ignored the configured
 noise of p_wv

---
 .../src/pose_pressure_msf/pose_pressure_sensormanager.h       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 2a18ac1..d99e728 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -208,6 +208,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
   virtual void CalculateQAuxiliaryStates(EKFState_T& state, double dt) const {
     const msf_core::Vector3 nqwvv = msf_core::Vector3::Constant(
         config_.pose_noise_q_wv);
+    const msf_core::Vector3 npwvv = msf_core::Vector3::Constant(
+        config_.pose_noise_p_wv);
     const msf_core::Vector3 nqicv = msf_core::Vector3::Constant(
         config_.pose_noise_q_ic);
     const msf_core::Vector3 npicv = msf_core::Vector3::Constant(
@@ -223,6 +225,8 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
         .asDiagonal();
     state.GetQBlock<StateDefinition_T::q_wv>() =
         (dt * nqwvv.cwiseProduct(nqwvv)).asDiagonal();
+    state.GetQBlock<StateDefinition_T::p_wv>() =
+        (dt * npwvv.cwiseProduct(npwvv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::q_ic>() =
         (dt * nqicv.cwiseProduct(nqicv)).asDiagonal();
     state.GetQBlock<StateDefinition_T::p_ic>() =
-- 
2.43.0


From 092a5f2502bddc79cf228dd7ee91c15c126e0422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:34 +0000
Subject: [PATCH 26/54] fix: pose_pressure application ignored the configured
 pose delay

---
 msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index d99e728..48a9c80 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -109,6 +109,7 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     // Pass the noise values to the sensor handlers.
     pose_handler_->SetNoises(config.pose_noise_meas_p,
                              config.pose_noise_meas_q);
+    pose_handler_->SetDelay(config.pose_delay);
     pressure_handler_->SetNoises(config.press_noise_meas_p);
   }
 
-- 
2.43.0


From 1572671a5d3a7f703f8b827f28922b078c6e9c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:02 +0000
Subject: [PATCH 27/54] fix: acceleration spikes were replaced by an outdated
 or foreign reading

The replacement was kept in a function-static variable: zero before the first
good reading, one reading older than the last plausible one, and shared by all
instances and across re-initialisations. Use the reading stored with the last
state instead.
---
 .../msf_core/implementation/msf_core_inl.h    | 23 ++++---------------
 1 file changed, 5 insertions(+), 18 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 7716fd1..c378f1a 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -142,20 +142,10 @@ void MSF_Core<EKFState_T>::ProcessIMU(
 
 
   // Remove acc spikes (TODO (slynen): find a cleaner way to do this).
-  static Eigen::Matrix<double, 3, 1> last_am =
-      Eigen::Matrix<double, 3, 1>(0, 0, 0);
+  // The readings stored with the last state have been checked already.
   if (currentState->a_m.norm() > 50)
-    currentState->a_m = last_am;
-  else {
-    // Try to get the state before the current time.
-    if (lastState->time == constants::INVALID_TIME) {
-      MSF_WARN_STREAM(
-          "Accelerometer readings had a spike, but no prior state was in the "
-          "buffer to take cleaner measurements from");
-      return;
-    }
-    last_am = lastState->a_m;
-  }
+    currentState->a_m = lastState->a_m;
+
   if (!predictionMade_) {
     if (lastState->time == constants::INVALID_TIME) {
       MSF_WARN_STREAM("Wanted to compare prediction time offset to last state, "
@@ -245,12 +235,9 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
   currentState->noise_acc = Vector3::Constant(usercalc_.GetParamNoiseAcc());
 
   // Remove acc spikes (TODO (slynen): Find a cleaner way to do this).
-  static Eigen::Matrix<double, 3, 1> last_am =
-      Eigen::Matrix<double, 3, 1>(0, 0, 0);
+  // The readings stored with the last state have been checked already.
   if (currentState->a_m.norm() > 50)
-    currentState->a_m = last_am;
-  else
-    last_am = currentState->a_m;
+    currentState->a_m = lastState->a_m;
 
   if (!predictionMade_) {
     if (fabs(currentState->time - lastState->time) > 5) {
-- 
2.43.0


From ab1d409a21f76d29b5f5e84559aa09613b51fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:19 +0000
Subject: [PATCH 28/54] fix: IMU readings slightly out of order put states
 without covariance into the buffer

A reading up to 10 ms older than the last one was propagated to backwards in
time. Its state never got a covariance, so that a measurement at that time
collapsed the covariance of the filter to zero; the following readings were
propagated from there. Ignore such readings.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index c378f1a..7530dae 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -164,6 +164,15 @@ void MSF_Core<EKFState_T>::ProcessIMU(
     }
   }
 
+  // A reading from before the last one cannot be propagated to anymore.
+  if (currentState->time <= lastState->time) {
+    MSF_WARN_STREAM_THROTTLE(
+        2, __FUNCTION__<<" IMU message is out of order, ignoring it: "
+        "last-state-time: " << msf_core::timehuman(lastState->time) << " "
+        "current-imu-time: " << msf_core::timehuman(currentState->time));
+    return;
+  }
+
   if (lastState->time == constants::INVALID_TIME) {
     MSF_WARN_STREAM(
         "Wanted to propagate state, but no valid prior state could be found in "
-- 
2.43.0


From 0b04c87469132c2c878ea12bd9e39dc3bffb535b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:19 +0000
Subject: [PATCH 29/54] fix: states from before a backward time jump stayed in
 the buffer

When the time jumped back before prediction had started, only the last state was
moved to the new time. The others remained as the newest ones and all further
updates were propagated to and published at their time.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 7530dae..3571501 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -155,6 +155,12 @@ void MSF_Core<EKFState_T>::ProcessIMU(
     if (fabs(currentState->time - lastState->time) > 0.1) {
       MSF_WARN_STREAM_THROTTLE(
           2, "large time-gap re-initializing to last state\n");
+      if (currentState->time < lastState->time) {
+        // The time jumped back, only the last state is moved to the new time.
+        shared_ptr<EKFState_T> keepState = lastState;
+        stateBuffer_.Clear();
+        stateBuffer_.Insert(keepState);
+      }
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
           lastState->time, currentState->time);
       // The entry it_last_IMU pointed to has been removed from the buffer.
-- 
2.43.0


From a2fe2d55fd19ebc5caa1b5d1444ab2cfc05f128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:19 +0000
Subject: [PATCH 30/54] fix: external states out of order were added without
 covariance

Same as for IMU messages: a state at or before the time of the last one never
got a covariance and was published and used for measurements nevertheless. A
jump back in time now resets the filter as it does for IMU messages.
---
 .../include/msf_core/implementation/msf_core_inl.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 3571501..ca56180 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -243,6 +243,20 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
   shared_ptr<EKFState_T> currentState(new EKFState_T);
   currentState->time = msg_stamp;
 
+  // Check if this message is really after the last one (see ProcessIMU).
+  if (predictionMade_ && currentState->time <= lastState->time) {
+    if (currentState->time - lastState->time < -0.01) {
+      initialized_ = false;
+      predictionMade_ = false;
+      MSF_ERROR_STREAM(
+          __FUNCTION__<<"latest external state was out of order by a too large "
+          "amount, resetting EKF: last-state-time: "
+          << msf_core::timehuman(lastState->time) << " "
+          << "current-state-time: " << msf_core::timehuman(currentState->time));
+    }
+    return;
+  }
+
   // Get inputs.
   currentState->a_m = linear_acceleration;
   currentState->w_m = angular_velocity;
-- 
2.43.0


From d5a81912a7587859f17974363c5b357a42985b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:19 +0000
Subject: [PATCH 31/54] fix: IMU messages after external states used a dangling
 iterator

External states clear or rearrange the state buffer, it_last_IMU kept pointing
to an entry that had been removed.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index ca56180..ea1d734 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -272,6 +272,9 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     if (fabs(currentState->time - lastState->time) > 5) {
       typename StateBuffer_T::Ptr_T tmp = stateBuffer_.UpdateTime(
           lastState->time, currentState->time);
+      // The entry it_last_IMU pointed to has been removed from the buffer.
+      it_last_IMU = stateBuffer_.GetIteratorAtValue(tmp);
+      time_P_propagated = currentState->time;
       MSF_WARN_STREAM_THROTTLE(
           2, "large time-gap re-initializing to last state: "
           << msf_core::timehuman(tmp->time));
@@ -313,7 +316,7 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
     }
   }
 
-  stateBuffer_.Insert(currentState);
+  it_last_IMU = stateBuffer_.Insert(currentState);
   PropagatePOneStep();
   predictionMade_ = true;
   usercalc_.PublishStateAfterPropagation(currentState);
-- 
2.43.0


From 6a73dc3ac0edf89006952a7cae3f54520ad3f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:19 +0000
Subject: [PATCH 32/54] fix: pose throttling dropped all poses after time had
 gone backwards

When a bag is replayed, the time of the last pose of the previous run was taken
for one of the current run and all poses before it were dropped.
---
 .../pose_sensor_handler/implementation/pose_sensorhandler.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp b/msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp
index 9000c04..0b34f6e 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/implementation/pose_sensorhandler.hpp
@@ -148,7 +148,7 @@ void PoseSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::ProcessPoseMeasurement(
   double time_now = msg->header.stamp.toSec();
   const double epsilon = 0.001; // Small time correction to avoid rounding
   // errors in the timestamps.
-  if (time_now - timestamp_previous_pose_ <=
+  if (std::fabs(time_now - timestamp_previous_pose_) <=
       pose_measurement_minimum_dt_ - epsilon) {
     MSF_WARN_STREAM_THROTTLE(
         30, "Pose measurement throttling is on, dropping messages"
-- 
2.43.0


From 5390eae05b251625df5bb3b1102bf6e0d4b5d7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 33/54] fix: GPS reference was shared by all position handlers
 of a process

---
 .../implementation/position_sensorhandler.hpp            | 9 +++++----
 .../position_sensor_handler/position_sensorhandler.h     | 1 +
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
index 1b08ff1..0537a00 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
@@ -30,7 +30,8 @@ PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::PositionSensorHandler(
     : SensorHandler<msf_updates::EKFState>(meas, topic_namespace,
                                            parameternamespace),
       n_zp_(1e-6),
-      delay_(0) {
+      delay_(0),
+      gps_reference_initialized_(false) {
   ros::NodeHandle pnh("~/position_sensor");
   pnh.param("position_use_fixed_covariance", use_fixed_covariance_, false);
   bool enable_tcp_no_delay;
@@ -190,14 +191,14 @@ void PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::MeasurementCallback(
           << " ***");
 
   // Fixed covariance will be set in measurement class -> MakeFromSensorReadingImpl.
-  static bool referenceinit = false;  //TODO (slynen): Dynreconf reset reference.
-  if (!referenceinit) {
+  // TODO (slynen): Dynreconf reset reference.
+  if (!gps_reference_initialized_) {
     gpsConversion_.InitReference(msg->latitude, msg->longitude, msg->altitude);
     MSF_WARN_STREAM(
         "Initialized GPS reference of topic: " << this->topic_namespace_ << "/"
             << subNavSatFix_.getTopic() << " to lat/lon/alt: [" << msg->latitude
             << ", " << msg->longitude << ", " << msg->altitude << "]");
-    referenceinit = true;
+    gps_reference_initialized_ = true;
   }
 
   msf_core::Vector3 ecef = gpsConversion_.WGS84ToECEF(msg->latitude,
diff --git a/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h b/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
index 8ba1970..e014f90 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
+++ b/msf_updates/include/msf_updates/position_sensor_handler/position_sensorhandler.h
@@ -42,6 +42,7 @@ class PositionSensorHandler : public msf_core::SensorHandler<
   ros::Subscriber subTransformStamped_;
   ros::Subscriber subNavSatFix_;
   msf_core::GPSConversion gpsConversion_;
+  bool gps_reference_initialized_;  ///< Has this handler seen its first fix.
 
   bool use_fixed_covariance_;  ///< Use fixed covariance set by dynamic reconfigure.
   bool provides_absolute_measurements_;  ///< Does this sensor measure relative or absolute values.
-- 
2.43.0


From adb8509956262a4eb67344334c664d8fe0779edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:25 +0000
Subject: [PATCH 34/54] fix: pressure handler used uninitialised heights and an
 overlapping memcpy

---
 .../implementation/pressure_sensorhandler.hpp                 | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
index 6077b4d..ff2f5b5 100644
--- a/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/pressure_sensor_handler/implementation/pressure_sensorhandler.hpp
@@ -47,6 +47,8 @@ PressureSensorHandler::PressureSensorHandler(
                           : ros::TransportHints());
 
   memset(heightbuff, 0, sizeof(double) * heightbuffsize);
+  z_p_.setZero();
+  z_average_p.setZero();
 
 }
 
@@ -79,7 +81,7 @@ void PressureSensorHandler::MeasurementCallback(
   z_p_ = meas->z_p_;  // Store this for the init procedure.
 
   // Make averaged measurement.
-  memcpy(heightbuff, heightbuff + 1, sizeof(double) * (heightbuffsize - 1));
+  memmove(heightbuff, heightbuff + 1, sizeof(double) * (heightbuffsize - 1));
   heightbuff[heightbuffsize - 1] = meas->z_p_(0);
   double sum = 0;
   for (int k = 0; k < heightbuffsize; ++k)
-- 
2.43.0


From 3389bb858195e586b02ccb5d86c4881ed53f9c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:56 +0000
Subject: [PATCH 35/54] fix: initialisation with a zero, negative or undefined
 scale was not refused

---
 msf_updates/src/pose_msf/pose_sensormanager.h | 19 +++++++++++++++++++
 .../pose_pressure_sensormanager.h             |  5 +++++
 .../position_pose_sensormanager.h             |  5 +++++
 3 files changed, 29 insertions(+)

diff --git a/msf_updates/src/pose_msf/pose_sensormanager.h b/msf_updates/src/pose_msf/pose_sensormanager.h
index d990bd7..cd94913 100644
--- a/msf_updates/src/pose_msf/pose_sensormanager.h
+++ b/msf_updates/src/pose_msf/pose_sensormanager.h
@@ -112,14 +112,28 @@ class PoseSensorManager : public msf_core::MSF_SensorManagerROS<
         return;
       }
       double scale = p[2] / config.core_height;
+      if (!IsValidScale(scale)) {
+        MSF_WARN_STREAM(
+            "The measured height has to be positive. Height init not allowed.");
+        return;
+      }
       Init(scale);
       config.core_set_height = false;
     }
   }
 
+  static bool IsValidScale(double scale) {
+    return scale > 0 && std::isfinite(scale);
+  }
+
   bool InitScale(sensor_fusion_comm::InitScale::Request &req,
                  sensor_fusion_comm::InitScale::Response &res) {
     ROS_INFO("Initialize filter with scale %f", req.scale);
+    if (!IsValidScale(req.scale)) {
+      res.result = "The scale has to be positive and finite.";
+      MSF_WARN_STREAM(res.result);
+      return false;
+    }
     Init(req.scale);
     res.result = "Initialized scale";
     return true;
@@ -138,6 +152,11 @@ class PoseSensorManager : public msf_core::MSF_SensorManagerROS<
     std::stringstream ss;
     if (std::abs(req.height) > MIN_INITIALIZATION_HEIGHT) {
       double scale = p[2] / req.height;
+      if (!IsValidScale(scale)) {
+        res.result = "No valid scale follows from the requested height.";
+        MSF_WARN_STREAM(res.result);
+        return false;
+      }
       Init(scale);
       ss << scale;
       res.result = "Initialized by known height. Initial scale = " + ss.str();
diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 48a9c80..135f76e 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -102,6 +102,11 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
         return;
       }
       double scale = p[2] / config.core_height;
+      if (!(scale > 0)) {
+        MSF_WARN_STREAM(
+            "The measured height has to be positive. Height init not allowed.");
+        return;
+      }
       Init(scale);
       config.core_set_height = false;
     }
diff --git a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
index bbfe165..32ec2c5 100644
--- a/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
+++ b/msf_updates/src/position_pose_msf/position_pose_sensormanager.h
@@ -116,6 +116,11 @@ class PositionPoseSensorManager : public msf_core::MSF_SensorManagerROS<
         return;
       }
       double scale = p[2] / config.core_height;
+      if (!(scale > 0)) {
+        MSF_WARN_STREAM(
+            "The measured height has to be positive. Height init not allowed.");
+        return;
+      }
       Init(scale);
       config.core_set_height = false;
     }
-- 
2.43.0


From b29b539088d44af0a0dd570ed3564420b3b85af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 36/54] fix: initial pressure bias ignored the lever arm of the
 pose sensor

---
 .../src/pose_pressure_msf/pose_pressure_sensormanager.h  | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
index 135f76e..e053b74 100644
--- a/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
+++ b/msf_updates/src/pose_pressure_msf/pose_pressure_sensormanager.h
@@ -140,11 +140,7 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     p_vc = pose_handler_->GetPositionMeasurement();
     q_vc = pose_handler_->GetAttitudeMeasurement();
 
-    b_p
-        << pose_handler_->GetPositionMeasurement()(2) / scale
-            - pressure_handler_->GetPressureMeasurement()(0);  /// Pressure drift state
-
-            // Check if we have already input from the measurement sensor.
+    // Check if we have already input from the measurement sensor.
     if (!pose_handler_->ReceivedFirstMeasurement())
       MSF_WARN_STREAM(
           "No measurements received yet to initialize position and attitude - "
@@ -171,6 +167,9 @@ class PosePressureSensorManager : public msf_core::MSF_SensorManagerROS<
     p = q_wv.conjugate().toRotationMatrix() * p_vc / scale
         - q.toRotationMatrix() * p_ic;
 
+    // Pressure drift state.
+    b_p << p(2) - pressure_handler_->GetPressureMeasurement()(0);
+
     a_m = q.inverse() * g;			/// Initial acceleration.
 
     // Prepare init "measurement".
-- 
2.43.0


From c30043033f5b0315a93590005e4bf808e4c81154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:40 +0000
Subject: [PATCH 37/54] fix: correction before the first external state carried
 a zero quaternion

The buffer for the external state was initialised with a zero quaternion,
so every correction sent before the first external state arrived had an
attitude that is no rotation.
---
 msf_core/include/msf_core/msf_sensormanagerROS.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/msf_core/include/msf_core/msf_sensormanagerROS.h b/msf_core/include/msf_core/msf_sensormanagerROS.h
index 5a23374..8a5fb15 100644
--- a/msf_core/include/msf_core/msf_sensormanagerROS.h
+++ b/msf_core/include/msf_core/msf_sensormanagerROS.h
@@ -114,6 +114,7 @@ struct MSF_SensorManagerROS : public msf_core::MSF_SensorManager<EKFState_T> {
         "cov_core_aux", 10);
 
     hl_state_buf_.state.resize(HLI_EKF_STATE_SIZE, 0);
+    hl_state_buf_.state[6] = 1;  // Unit quaternion.
 
     // Print published/subscribed topics.
     ros::V_string topics;
-- 
2.43.0


From bceb1348139089b291223eb27696b646d5cf0ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:44 +0000
Subject: [PATCH 38/54] fix: the fuzzy-tracking limit of the sensor manager was
 not used

GetParamFuzzyTrackingThreshold() was only printed, every update was
checked against the default argument of ApplyCorrection().
---
 .../msf_core/implementation/msf_measurement_inl.h        | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_measurement_inl.h b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
index 6ed64c0..84ffef4 100644
--- a/msf_core/include/msf_core/implementation/msf_measurement_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
@@ -76,7 +76,8 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   // Make sure P stays symmetric.
   P = 0.5 * (P + P.transpose()).eval();
 
-  core.ApplyCorrection(state, correction_);
+  core.ApplyCorrection(state, correction_,
+                       core.GetUserCalc().GetParamFuzzyTrackingThreshold());
 }
 
 template<typename EKFState_T>
@@ -120,7 +121,8 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrection(
   // Make sure P stays symmetric.
   P = 0.5 * (P + P.transpose()).eval();
 
-  core.ApplyCorrection(state, correction_);
+  core.ApplyCorrection(state, correction_,
+                       core.GetUserCalc().GetParamFuzzyTrackingThreshold());
 }
 
 template<typename EKFState_T>
@@ -194,7 +196,8 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrectionRelative(
   // TODO (slynen): EV, set Evalues<eps to zero, then reconstruct.
   state_new->P = 0.5 * (state_new->P + state_new->P.transpose()).eval();
 
-  core.ApplyCorrection(state_new, correction_);
+  core.ApplyCorrection(state_new, correction_,
+                       core.GetUserCalc().GetParamFuzzyTrackingThreshold());
 }
 
 template<typename EKFState_T>
-- 
2.43.0


From 6cf1b85c068d45f73d2d3df5a8b948c9dc5fe3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:08 +0000
Subject: [PATCH 39/54] fix: measurement inside a gap of the IMU data corrupted
 the estimate

A measurement without a state close to it was put into the buffer but not
applied. The measurements after it were then applied a second time to
states which had not been propagated again, and every delayed measurement
from before the gap left the states after it without propagation.
---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index ea1d734..c9741da 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -646,6 +646,15 @@ void MSF_Core<EKFState_T>::AddMeasurement(
             "buffer: "<<timehuman(stateBuffer_.GetFirst()->time)<<" (s)]");
     return;  // Reject measurements too far in the past.
   }
+  // Check that there is a state close to the measurement, GetClosestState()
+  // cannot provide one otherwise. It must not get into the buffer then.
+  if (fabs(stateBuffer_.GetIteratorClosest(measurement->time)->second->time
+          - measurement->time) > 0.1) {
+    MSF_WARN_STREAM_THROTTLE(
+        1, __FUNCTION__ << " There is no state close to the measurement at "
+        << timehuman(measurement->time) << " (s), ignoring it");
+    return;
+  }
 
   // Add this measurement to the buffer and get an iterator to it.
   typename measurementBufferT::iterator_T it_meas =
-- 
2.43.0


From 5fd856e3bbd0eb58f6a59e03c4fd3773134d0674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:10 +0000
Subject: [PATCH 40/54] fix: outlier gate was ignored for relative measurements

---
 .../msf_core/implementation/msf_measurement_inl.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_measurement_inl.h b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
index 84ffef4..853a03c 100644
--- a/msf_core/include/msf_core/implementation/msf_measurement_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_measurement_inl.h
@@ -178,7 +178,20 @@ void MSF_MeasurementBase<EKFState_T>::CalculateAndApplyCorrectionRelative(
   //TODO (slynen): Only compute the part of K_SC that we need.
   Eigen::Matrix<double, MSF_Core<EKFState_T>::nErrorStatesAtCompileTime * 2,
       R_type::RowsAtCompileTime> K_SC;
-  K_SC = P_SC * H_SC.transpose() * S_SC.inverse();
+  const R_type S_SC_inverse = S_SC.inverse();
+  K_SC = P_SC * H_SC.transpose() * S_SC_inverse;
+
+  if(enable_mah_outlier_rejection_){
+    //calculate mahalanobis distance
+    Eigen::MatrixXd mah_dist_squared_temp = res.transpose() * S_SC_inverse * res;
+    double mah_dist_squared = mah_dist_squared_temp(0,0);
+
+    //reject point as outlier if distance above threshold
+    if (sqrt(mah_dist_squared) > mah_threshold_){
+      MSF_WARN_STREAM_THROTTLE(1,"rejecting reading as outlier");
+      return;
+    }
+  }
 
   Eigen::Matrix<double, MSF_Core<EKFState_T>::nErrorStatesAtCompileTime,
       R_type::RowsAtCompileTime> K;
-- 
2.43.0


From 29b2f4373069ae2e60b00e71c7e69d61d483255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:41 +0000
Subject: [PATCH 41/54] fix: attitude residual of relative pose measurements
 pointed the wrong way

---
 .../pose_sensor_handler/pose_measurement.h    | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
index 3562332..f734898 100644
--- a/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
+++ b/msf_updates/include/msf_updates/pose_sensor_handler/pose_measurement.h
@@ -374,7 +374,7 @@ struct PoseMeasurement : public PoseMeasurementBase {
       Eigen::Matrix<double, nMeasurements,
           msf_core::MSF_Core<EKFState_T>::nErrorStatesAtCompileTime> H_new,
           H_old;
-      Eigen::Matrix<double, nMeasurements, 1> r_new, r_old;
+      Eigen::Matrix<double, nMeasurements, 1> r_new;
 
       CalculateH(state_nonconst_old, H_old);
 
@@ -419,18 +419,21 @@ struct PoseMeasurement : public PoseMeasurementBase {
 
       Eigen::Quaternion<double> diffmeasatt = z_q_.conjugate() * prevmeas->z_q_;
 
+      // Both differences rotate from the new to the old attitude, the error
+      // is expressed in the new one.
       Eigen::Quaternion<double> q_err;
-      q_err = diffprobatt.conjugate() * diffmeasatt;
+      q_err = diffprobatt * diffmeasatt.conjugate();
 
       r_new.block<3, 1>(3, 0) = q_err.vec() / q_err.w() * 2;
-      // Vision world yaw drift.
-      q_err = state_new.Get<StateQwvIdx>();
-
-      r_new(6, 0) = -2 * (q_err.w() * q_err.z() + q_err.x() * q_err.y())
-          / (1 - 2 * (q_err.y() * q_err.y() + q_err.z() * q_err.z()));
+      // An attitude error of the old state seen from the new one.
+      H_old.block(3, 0, 3, H_old.cols()) = (diffprobatt.toRotationMatrix()
+          * H_old.block(3, 0, 3, H_old.cols())).eval();
+      // Vision world yaw drift: not measured, see the disabled line in
+      // CalculateH. A residual here would only count as an outlier.
+      r_new(6, 0) = 0;
 
-      if (!CheckForNumeric(r_old, "r_old")) {
-        MSF_ERROR_STREAM("r_old: "<<r_old);
+      if (!CheckForNumeric(r_new, "r_new")) {
+        MSF_ERROR_STREAM("r_new: "<<r_new);
         MSF_WARN_STREAM(
             "state: "<<const_cast<EKFState_T&>(state_new). ToEigenVector().transpose());
       }
-- 
2.43.0


From d75f04b1ea0f2cee6a8a104fb1348639e0018e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:15 +0000
Subject: [PATCH 42/54] fix: history grew without bound while there were no
 measurements

---
 .../msf_core/implementation/msf_core_inl.h    | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index c9741da..648365d 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -209,8 +209,11 @@ void MSF_Core<EKFState_T>::ProcessIMU(
     // Check if we can apply some pending measurement.
     HandlePendingMeasurements();
   }
-  seq++;
-
+  // Remove very old states and measurements from the buffers. AddMeasurement()
+  // does so too, but there might be no measurements.
+  if (++seq % 100 == 0) {
+    CleanUpBuffers();
+  }
 }
 
 template<typename EKFState_T>
@@ -327,6 +330,12 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
 
   // Check if we can apply some pending measurement.
   HandlePendingMeasurements();
+
+  // Remove very old states and measurements from the buffers (see ProcessIMU).
+  static int seq = 0;
+  if (++seq % 100 == 0) {
+    CleanUpBuffers();
+  }
 }
 
 template<typename EKFState_T>
@@ -342,8 +351,12 @@ void MSF_Core<EKFState_T>::HandlePendingMeasurements() {
 template<typename EKFState_T>
 void MSF_Core<EKFState_T>::CleanUpBuffers() {
   double timeold = 60;  // 1 min.
-  stateBuffer_.ClearOlderThan(timeold);
-  MeasurementBuffer_.ClearOlderThan(timeold);
+  if (stateBuffer_.Size() > 0) {
+    stateBuffer_.ClearOlderThan(timeold);
+  }
+  if (MeasurementBuffer_.Size() > 0) {
+    MeasurementBuffer_.ClearOlderThan(timeold);
+  }
 }
 
 template<typename EKFState_T>
-- 
2.43.0


From 5e79826f60d37d4d059b1d4f43484c54dca6e00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:34 +0000
Subject: [PATCH 43/54] fix: only one of the pending measurements was handled
 per IMU message

---
 .../include/msf_core/implementation/msf_core_inl.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 648365d..1b79ea2 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -340,12 +340,14 @@ void MSF_Core<EKFState_T>::ProcessExternallyPropagatedState(
 
 template<typename EKFState_T>
 void MSF_Core<EKFState_T>::HandlePendingMeasurements() {
-  if (queueFutureMeasurements_.empty())
-    return;
-  shared_ptr<MSF_MeasurementBase<EKFState_T> > meas = queueFutureMeasurements_
-      .front();
-  queueFutureMeasurements_.pop();
-  AddMeasurement(meas);
+  // Those which are still in the future are queued again by AddMeasurement().
+  for (size_t pending = queueFutureMeasurements_.size(); pending > 0 &&
+       !queueFutureMeasurements_.empty(); --pending) {
+    shared_ptr<MSF_MeasurementBase<EKFState_T> > meas = queueFutureMeasurements_
+        .front();
+    queueFutureMeasurements_.pop();
+    AddMeasurement(meas);
+  }
 }
 
 template<typename EKFState_T>
-- 
2.43.0


From e5250a80e0010379b5283cf563924069d44f597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:34 +0000
Subject: [PATCH 44/54] fix: measurements far in the future were queued without
 bound

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index 1b79ea2..a33f475 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -648,6 +648,14 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   // Check if the measurement is in the future where we don't have imu
   // measurements yet.
   if (measurement->time > stateBuffer_.GetLast()->time) {
+    if (measurement->time > stateBuffer_.GetLast()->time + 60) {
+      MSF_WARN_STREAM_THROTTLE(
+          1, "You tried to give me a measurement which is too far in the future. "
+          "Are you sure your clocks are synced and delays compensated correctly? "
+          "[measurement: "<<timehuman(measurement->time)<<" (s) last state in "
+              "buffer: "<<timehuman(stateBuffer_.GetLast()->time)<<" (s)]");
+      return;  // Reject measurements too far in the future.
+    }
     queueFutureMeasurements_.push(measurement);
     return;
 
-- 
2.43.0


From 1bfe3b504b609b5ef469045e7ac4de6524546b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:06 +0000
Subject: [PATCH 45/54] fix: external states with too few entries were read out
 of bounds

---
 .../include/msf_core/msf_IMUHandler_ROS.h     | 39 ++++++++++++-------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/msf_core/include/msf_core/msf_IMUHandler_ROS.h b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
index eb27c89..c46d922 100644
--- a/msf_core/include/msf_core/msf_IMUHandler_ROS.h
+++ b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
@@ -61,8 +61,16 @@ class IMUHandler_ROS : public IMUHandler<EKFState_T> {
   virtual ~IMUHandler_ROS() { }
 
   void StateCallback(const sensor_fusion_comm::ExtEkfConstPtr & msg) {
-    static_cast<MSF_SensorManagerROS<EKFState_T>&>(this->manager_)
-        .SetHLControllerStateBuffer(*msg);
+    // The state is an array of variable length.
+    const bool is_complete = msg->state.size() >= HLI_EKF_STATE_SIZE;
+    if (is_complete) {
+      static_cast<MSF_SensorManagerROS<EKFState_T>&>(this->manager_)
+          .SetHLControllerStateBuffer(*msg);
+    } else {
+      MSF_WARN_STREAM_THROTTLE(
+          1, "External state has " << msg->state.size() << " entries instead of "
+          << HLI_EKF_STATE_SIZE << ", only using its IMU readings.");
+    }
 
     // Get the imu values.
     msf_core::Vector3 linacc;
@@ -78,24 +86,27 @@ class IMUHandler_ROS : public IMUHandler<EKFState_T> {
     if (this->manager_.GetDataPlaybackStatus())
       flag = sensor_fusion_comm::ExtEkf::ignore_state;
 
-    bool isnumeric = true;
-    if (flag == sensor_fusion_comm::ExtEkf::current_state) {
+    bool isnumeric = is_complete;
+    if (flag == sensor_fusion_comm::ExtEkf::current_state && is_complete) {
       isnumeric = CheckForNumeric(
           Eigen::Map<const Eigen::Matrix<float, 10, 1> >(msg->state.data()),
           "before prediction p,v,q");
     }
 
     // Get the propagated states.
-    msf_core::Vector3 p, v;
-    msf_core::Quaternion q;
-
-    p = Eigen::Matrix<double, 3, 1>(msg->state[0], msg->state[1],
-                                    msg->state[2]);
-    v = Eigen::Matrix<double, 3, 1>(msg->state[3], msg->state[4],
-                                    msg->state[5]);
-    q = Eigen::Quaternion<double>(msg->state[6], msg->state[7], msg->state[8],
-                                  msg->state[9]);
-    q.normalize();
+    msf_core::Vector3 p = msf_core::Vector3::Zero();
+    msf_core::Vector3 v = msf_core::Vector3::Zero();
+    msf_core::Quaternion q = msf_core::Quaternion::Identity();
+
+    if (is_complete) {
+      p = Eigen::Matrix<double, 3, 1>(msg->state[0], msg->state[1],
+                                      msg->state[2]);
+      v = Eigen::Matrix<double, 3, 1>(msg->state[3], msg->state[4],
+                                      msg->state[5]);
+      q = Eigen::Quaternion<double>(msg->state[6], msg->state[7],
+                                    msg->state[8], msg->state[9]);
+      q.normalize();
+    }
 
     bool is_already_propagated = false;
     if (flag == sensor_fusion_comm::ExtEkf::current_state && isnumeric) {
-- 
2.43.0


From 8d03c3a438d50c136361a40a45d4e22b3a91d031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:11 +0000
Subject: [PATCH 46/54] fix: signed overflow when sequence numbers pass 2^31

---
 msf_core/include/msf_core/msf_IMUHandler_ROS.h | 6 +++---
 msf_core/include/msf_core/msf_sensorhandler.h  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/msf_core/include/msf_core/msf_IMUHandler_ROS.h b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
index c46d922..cdea382 100644
--- a/msf_core/include/msf_core/msf_IMUHandler_ROS.h
+++ b/msf_core/include/msf_core/msf_IMUHandler_ROS.h
@@ -118,9 +118,9 @@ class IMUHandler_ROS : public IMUHandler<EKFState_T> {
   }
 
   void IMUCallback(const sensor_msgs::ImuConstPtr & msg) {
-    static int lastseq = constants::INVALID_SEQUENCE;
-    if (static_cast<int>(msg->header.seq) != lastseq + 1
-        && lastseq != constants::INVALID_SEQUENCE) {
+    static uint32_t lastseq = constants::INVALID_SEQUENCE;
+    if (msg->header.seq != lastseq + 1
+        && lastseq != static_cast<uint32_t>(constants::INVALID_SEQUENCE)) {
       MSF_WARN_STREAM(
           "msf_core: imu message drop curr seq:" << msg->header.seq
               << " expected: " << lastseq + 1);
diff --git a/msf_core/include/msf_core/msf_sensorhandler.h b/msf_core/include/msf_core/msf_sensorhandler.h
index 5e39d55..f25c089 100644
--- a/msf_core/include/msf_core/msf_sensorhandler.h
+++ b/msf_core/include/msf_core/msf_sensorhandler.h
@@ -27,7 +27,7 @@ namespace msf_core {
 template<typename EKFState_T>
 class SensorHandler {
   friend class MSF_SensorManager<EKFState_T> ;
-  int lastseq_;
+  uint32_t lastseq_;  // Wraps around like the sequence numbers of the messages.
  protected:
   MSF_SensorManager<EKFState_T>& manager_;
   int sensorID;
@@ -41,7 +41,7 @@ class SensorHandler {
     sensorID = ID;
   }
   void SequenceWatchDog(size_t seq, const std::string& topic) {
-    if (static_cast<int>(seq) != lastseq_ + 1 && lastseq_ != 0) {
+    if (static_cast<uint32_t>(seq) != lastseq_ + 1 && lastseq_ != 0) {
       MSF_WARN_STREAM(
           topic << ": message drop curr seq:" << seq << " expected: "
                 << lastseq_ + 1);
-- 
2.43.0


From 8dd5e4d852e059bf8be8fcd4d74fcbb4ca676e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:47 +0000
Subject: [PATCH 47/54] fix: initialization aborted the node when the clock was
 not running yet

---
 msf_core/include/msf_core/implementation/msf_core_inl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index a33f475..d9c77c2 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -611,7 +611,11 @@ void MSF_Core<EKFState_T>::Init(
   // Hack: Wait for the external propagation to get the init message.
   usleep(10000);
 
-  assert(state->time != 0);
+  if (state->time == 0) {
+    MSF_ERROR_STREAM("The time of the initial state is zero, is simulated time "
+                     "used without a running clock? Not initializing.");
+    return;
+  }
 
   it_last_IMU = stateBuffer_.Insert(state);
 
-- 
2.43.0


From af03c767d0b72656f29dfed37f704c67f74ae7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:17 +0000
Subject: [PATCH 48/54] fix: GPS messages without a fix became the position
 reference

---
 .../implementation/position_sensorhandler.hpp            | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
index 0537a00..7b72343 100644
--- a/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
+++ b/msf_updates/include/msf_updates/position_sensor_handler/implementation/position_sensorhandler.hpp
@@ -18,6 +18,8 @@
  */
 #ifndef POSITION_SENSORHANDLER_HPP_
 #define POSITION_SENSORHANDLER_HPP_
+#include <cmath>
+
 #include <msf_core/msf_types.h>
 #include <msf_core/eigen_utils.h>
 #include <msf_core/gps_conversion.h>
@@ -190,6 +192,13 @@ void PositionSensorHandler<MEASUREMENT_TYPE, MANAGER_TYPE>::MeasurementCallback(
           << this->topic_namespace_ << "/" << subNavSatFix_.getTopic()
           << " ***");
 
+  // Receivers send NaN as long as they do not have a fix (or no altitude).
+  if (!std::isfinite(msg->latitude) || !std::isfinite(msg->longitude)
+      || !std::isfinite(msg->altitude)) {
+    MSF_WARN_STREAM_THROTTLE(2, "GPS message without position. Discarding message.");
+    return;
+  }
+
   // Fixed covariance will be set in measurement class -> MakeFromSensorReadingImpl.
   // TODO (slynen): Dynreconf reset reference.
   if (!gps_reference_initialized_) {
-- 
2.43.0


From 49736330af584551ff0a7b7d8b09dff35102b23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:16 +0000
Subject: [PATCH 49/54] fix: measurement arriving after a later one for the
 same state counted the later one twice

---
 .../msf_core/implementation/msf_core_inl.h    | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/msf_core/include/msf_core/implementation/msf_core_inl.h b/msf_core/include/msf_core/implementation/msf_core_inl.h
index d9c77c2..9624e35 100644
--- a/msf_core/include/msf_core/implementation/msf_core_inl.h
+++ b/msf_core/include/msf_core/implementation/msf_core_inl.h
@@ -694,6 +694,36 @@ void MSF_Core<EKFState_T>::AddMeasurement(
   typename measurementBufferT::iterator_T it_meas_end = MeasurementBuffer_
       .GetIteratorEnd();
 
+  // Measurements very close to a state are applied to that state, see
+  // GetClosestState(). If a later one already was, predict the state again and
+  // start with the first measurement which belongs to it.
+  typename StateBuffer_T::iterator_T it_state = stateBuffer_.GetIteratorClosest(
+      measurement->time);
+  const auto belongs_to_state = [&](typename measurementBufferT::iterator_T it) {
+    return fabs(it->second->time - it_state->second->time) <= 0.001
+        && stateBuffer_.GetIteratorClosest(it->second->time) == it_state;
+  };
+  typename measurementBufferT::iterator_T it_later = it_meas;
+  ++it_later;
+  if (it_later != it_meas_end && belongs_to_state(it_meas)
+      && belongs_to_state(it_later)
+      && it_state != stateBuffer_.GetIteratorBegin()) {
+    typename StateBuffer_T::iterator_T it_before = it_state;
+    --it_before;
+    PropagateState(it_before->second, it_state->second);
+    if (time_P_propagated > it_before->second->time) {
+      time_P_propagated = it_before->second->time;
+    }
+    while (it_meas != MeasurementBuffer_.GetIteratorBegin()) {
+      typename measurementBufferT::iterator_T it_earlier = it_meas;
+      --it_earlier;
+      if (!belongs_to_state(it_earlier)) {
+        break;
+      }
+      it_meas = it_earlier;
+    }
+  }
+
   // No propagation if no update is applied.
   typename StateBuffer_T::iterator_T it_curr = stateBuffer_.GetIteratorEnd();
 
-- 
2.43.0


From 8edecc6b65b0de9ad2975f74db810fbc25892833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:55 +0000
Subject: [PATCH 50/54] fix: evaluation that cannot synchronise reported
 success

---
 msf_eval/src/msf_eval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msf_eval/src/msf_eval.cpp b/msf_eval/src/msf_eval.cpp
index bd3c494..24ba873 100644
--- a/msf_eval/src/msf_eval.cpp
+++ b/msf_eval/src/msf_eval.cpp
@@ -191,7 +191,7 @@ int main(int argc, char **argv)
         if (it_GT == view_GT.end())
         {
           MSF_ERROR_STREAM("Time synchronization failed");
-          return false;
+          return -1;
         }
       }
       else
-- 
2.43.0


From 76baec03691660f245c5f1b9055b1a68f8b37829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:55 +0000
Subject: [PATCH 51/54] fix: evaluation aligned the world frames by an
 unsynchronised pair

---
 msf_eval/src/msf_eval.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/msf_eval/src/msf_eval.cpp b/msf_eval/src/msf_eval.cpp
index 24ba873..2854969 100644
--- a/msf_eval/src/msf_eval.cpp
+++ b/msf_eval/src/msf_eval.cpp
@@ -250,6 +250,11 @@ int main(int argc, char **argv)
       // add comparison value
       if (time_GT - start >= startOffset)
       {
+        // only a synchronized pair can align the world frames
+        if (ctr == 0 && fabs((time_GT - time_EKF).toSec()) >= timeSyncThreshold)
+        {
+          continue;
+        }
 
         T_WaBa = sm::kinematics::Transformation(
             Eigen::Vector4d(-pose->pose.pose.orientation.x, -pose->pose.pose.orientation.y,
-- 
2.43.0


From db1e497a3db90ba16223744d5f36944066506405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:55 +0000
Subject: [PATCH 52/54] fix: compass script did not start under Python 3

---
 msf_updates/src/position_msf/init_yaw_from_compass.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/msf_updates/src/position_msf/init_yaw_from_compass.py b/msf_updates/src/position_msf/init_yaw_from_compass.py
index 2940bce..4cf4002 100755
--- a/msf_updates/src/position_msf/init_yaw_from_compass.py
+++ b/msf_updates/src/position_msf/init_yaw_from_compass.py
@@ -72,7 +72,7 @@ if __name__ == "__main__":
         r.sleep()
 
     while not rospy.is_shutdown():
-        print rospy.get_param("msf_sensor_node",
-            "msf_gps_pose_estimator/position_sensor")
+        print(rospy.get_param("msf_sensor_node",
+            "msf_gps_pose_estimator/position_sensor"))
         client.update_configuration({"position_yaw_init":heading})
         r.sleep()
-- 
2.43.0


From 26f28bd08c8b62fd976fc11ac07dd79e698e1e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:55 +0000
Subject: [PATCH 53/54] fix: compass script could not convert quaternion
 messages

---
 msf_updates/src/position_msf/init_yaw_from_compass.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/msf_updates/src/position_msf/init_yaw_from_compass.py b/msf_updates/src/position_msf/init_yaw_from_compass.py
index 4cf4002..debaef1 100755
--- a/msf_updates/src/position_msf/init_yaw_from_compass.py
+++ b/msf_updates/src/position_msf/init_yaw_from_compass.py
@@ -43,9 +43,7 @@ def callback_orientation_degrees(data):
 def callback_orientation_quaternion(data):
     global is_init_heading
     global heading
-    # This call will also probably need msg_to_quaternion() to convert data into suitable format for transformation.py library
-
-    radians = tf.transformations.euler_from_quaternion(data)
+    radians = tf.transformations.euler_from_quaternion(msg_to_quaternion(data))
     heading = degrees(radians[2])
     is_init_heading = True
 
-- 
2.43.0


From f7d8c5a3138a5206db0ad8ee0d4462cc5894218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:33:55 +0000
Subject: [PATCH 54/54] fix: compass headings outside [-180, 180] were clipped

---
 msf_updates/src/position_msf/init_yaw_from_compass.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/msf_updates/src/position_msf/init_yaw_from_compass.py b/msf_updates/src/position_msf/init_yaw_from_compass.py
index debaef1..e02d1ef 100755
--- a/msf_updates/src/position_msf/init_yaw_from_compass.py
+++ b/msf_updates/src/position_msf/init_yaw_from_compass.py
@@ -72,5 +72,7 @@ if __name__ == "__main__":
     while not rospy.is_shutdown():
         print(rospy.get_param("msf_sensor_node",
             "msf_gps_pose_estimator/position_sensor"))
-        client.update_configuration({"position_yaw_init":heading})
+        # The parameter is limited to [-180, 180], compasses also use [0, 360).
+        client.update_configuration(
+            {"position_yaw_init":(heading + 180.0) % 360.0 - 180.0})
         r.sleep()
-- 
2.43.0

