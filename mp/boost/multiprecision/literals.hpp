#pragma once
#define SYM_UDL(N) constexpr boost::multiprecision::number<boost::multiprecision::backends::cpp_int_modular_backend<N>> \
    operator""_cppui_modular##N(const char *s) { return boost::multiprecision::backends::cpp_int_modular_backend<N>( \
        boost::multiprecision::mpdetail::parse<boost::multiprecision::mpdetail::limbs(N)>(s)); }
SYM_UDL(8) SYM_UDL(9) SYM_UDL(10) SYM_UDL(11) SYM_UDL(12) SYM_UDL(13) SYM_UDL(14) SYM_UDL(15)
SYM_UDL(16) SYM_UDL(17) SYM_UDL(18) SYM_UDL(19) SYM_UDL(20) SYM_UDL(21) SYM_UDL(22) SYM_UDL(23)
SYM_UDL(24) SYM_UDL(25) SYM_UDL(26) SYM_UDL(27) SYM_UDL(28) SYM_UDL(29) SYM_UDL(30) SYM_UDL(31)
SYM_UDL(32) SYM_UDL(33) SYM_UDL(34) SYM_UDL(35) SYM_UDL(36) SYM_UDL(37) SYM_UDL(38) SYM_UDL(39)
SYM_UDL(40) SYM_UDL(41) SYM_UDL(42) SYM_UDL(43) SYM_UDL(44) SYM_UDL(45) SYM_UDL(46) SYM_UDL(47)
SYM_UDL(48) SYM_UDL(49) SYM_UDL(50) SYM_UDL(51) SYM_UDL(52) SYM_UDL(53) SYM_UDL(54) SYM_UDL(55)
SYM_UDL(56) SYM_UDL(57) SYM_UDL(58) SYM_UDL(59) SYM_UDL(60) SYM_UDL(61) SYM_UDL(62) SYM_UDL(63)
SYM_UDL(64) SYM_UDL(65) SYM_UDL(66) SYM_UDL(67) SYM_UDL(68) SYM_UDL(69) SYM_UDL(70) SYM_UDL(71)
SYM_UDL(72) SYM_UDL(73) SYM_UDL(74) SYM_UDL(75) SYM_UDL(76) SYM_UDL(77) SYM_UDL(78) SYM_UDL(79)
SYM_UDL(80) SYM_UDL(81) SYM_UDL(82) SYM_UDL(83) SYM_UDL(84) SYM_UDL(85) SYM_UDL(86) SYM_UDL(87)
SYM_UDL(88) SYM_UDL(89) SYM_UDL(90) SYM_UDL(91) SYM_UDL(92) SYM_UDL(93) SYM_UDL(94) SYM_UDL(95)
SYM_UDL(96) SYM_UDL(97) SYM_UDL(98) SYM_UDL(99) SYM_UDL(100) SYM_UDL(101) SYM_UDL(102) SYM_UDL(103)
SYM_UDL(104) SYM_UDL(105) SYM_UDL(106) SYM_UDL(107) SYM_UDL(108) SYM_UDL(109) SYM_UDL(110) SYM_UDL(111)
SYM_UDL(112) SYM_UDL(113) SYM_UDL(114) SYM_UDL(115) SYM_UDL(116) SYM_UDL(117) SYM_UDL(118) SYM_UDL(119)
SYM_UDL(120) SYM_UDL(121) SYM_UDL(122) SYM_UDL(123) SYM_UDL(124) SYM_UDL(125) SYM_UDL(126) SYM_UDL(127)
SYM_UDL(128) SYM_UDL(129) SYM_UDL(130) SYM_UDL(131) SYM_UDL(132) SYM_UDL(133) SYM_UDL(134) SYM_UDL(135)
SYM_UDL(136) SYM_UDL(137) SYM_UDL(138) SYM_UDL(139) SYM_UDL(140) SYM_UDL(141) SYM_UDL(142) SYM_UDL(143)
SYM_UDL(144) SYM_UDL(145) SYM_UDL(146) SYM_UDL(147) SYM_UDL(148) SYM_UDL(149) SYM_UDL(150) SYM_UDL(151)
SYM_UDL(152) SYM_UDL(153) SYM_UDL(154) SYM_UDL(155) SYM_UDL(156) SYM_UDL(157) SYM_UDL(158) SYM_UDL(159)
SYM_UDL(160) SYM_UDL(161) SYM_UDL(162) SYM_UDL(163) SYM_UDL(164) SYM_UDL(165) SYM_UDL(166) SYM_UDL(167)
SYM_UDL(168) SYM_UDL(169) SYM_UDL(170) SYM_UDL(171) SYM_UDL(172) SYM_UDL(173) SYM_UDL(174) SYM_UDL(175)
SYM_UDL(176) SYM_UDL(177) SYM_UDL(178) SYM_UDL(179) SYM_UDL(180) SYM_UDL(181) SYM_UDL(182) SYM_UDL(183)
SYM_UDL(184) SYM_UDL(185) SYM_UDL(186) SYM_UDL(187) SYM_UDL(188) SYM_UDL(189) SYM_UDL(190) SYM_UDL(191)
SYM_UDL(192) SYM_UDL(193) SYM_UDL(194) SYM_UDL(195) SYM_UDL(196) SYM_UDL(197) SYM_UDL(198) SYM_UDL(199)
SYM_UDL(200) SYM_UDL(201) SYM_UDL(202) SYM_UDL(203) SYM_UDL(204) SYM_UDL(205) SYM_UDL(206) SYM_UDL(207)
SYM_UDL(208) SYM_UDL(209) SYM_UDL(210) SYM_UDL(211) SYM_UDL(212) SYM_UDL(213) SYM_UDL(214) SYM_UDL(215)
SYM_UDL(216) SYM_UDL(217) SYM_UDL(218) SYM_UDL(219) SYM_UDL(220) SYM_UDL(221) SYM_UDL(222) SYM_UDL(223)
SYM_UDL(224) SYM_UDL(225) SYM_UDL(226) SYM_UDL(227) SYM_UDL(228) SYM_UDL(229) SYM_UDL(230) SYM_UDL(231)
SYM_UDL(232) SYM_UDL(233) SYM_UDL(234) SYM_UDL(235) SYM_UDL(236) SYM_UDL(237) SYM_UDL(238) SYM_UDL(239)
SYM_UDL(240) SYM_UDL(241) SYM_UDL(242) SYM_UDL(243) SYM_UDL(244) SYM_UDL(245) SYM_UDL(246) SYM_UDL(247)
SYM_UDL(248) SYM_UDL(249) SYM_UDL(250) SYM_UDL(251) SYM_UDL(252) SYM_UDL(253) SYM_UDL(254) SYM_UDL(255)
SYM_UDL(256) SYM_UDL(257) SYM_UDL(258) SYM_UDL(259) SYM_UDL(260) SYM_UDL(261) SYM_UDL(262) SYM_UDL(263)
SYM_UDL(264) SYM_UDL(265) SYM_UDL(266) SYM_UDL(267) SYM_UDL(268) SYM_UDL(269) SYM_UDL(270) SYM_UDL(271)
SYM_UDL(272) SYM_UDL(273) SYM_UDL(274) SYM_UDL(275) SYM_UDL(276) SYM_UDL(277) SYM_UDL(278) SYM_UDL(279)
SYM_UDL(280) SYM_UDL(281) SYM_UDL(282) SYM_UDL(283) SYM_UDL(284) SYM_UDL(285) SYM_UDL(286) SYM_UDL(287)
SYM_UDL(288) SYM_UDL(289) SYM_UDL(290) SYM_UDL(291) SYM_UDL(292) SYM_UDL(293) SYM_UDL(294) SYM_UDL(295)
SYM_UDL(296) SYM_UDL(297) SYM_UDL(298) SYM_UDL(299) SYM_UDL(300) SYM_UDL(301) SYM_UDL(302) SYM_UDL(303)
SYM_UDL(304) SYM_UDL(305) SYM_UDL(306) SYM_UDL(307) SYM_UDL(308) SYM_UDL(309) SYM_UDL(310) SYM_UDL(311)
SYM_UDL(312) SYM_UDL(313) SYM_UDL(314) SYM_UDL(315) SYM_UDL(316) SYM_UDL(317) SYM_UDL(318) SYM_UDL(319)
SYM_UDL(320) SYM_UDL(321) SYM_UDL(322) SYM_UDL(323) SYM_UDL(324) SYM_UDL(325) SYM_UDL(326) SYM_UDL(327)
SYM_UDL(328) SYM_UDL(329) SYM_UDL(330) SYM_UDL(331) SYM_UDL(332) SYM_UDL(333) SYM_UDL(334) SYM_UDL(335)
SYM_UDL(336) SYM_UDL(337) SYM_UDL(338) SYM_UDL(339) SYM_UDL(340) SYM_UDL(341) SYM_UDL(342) SYM_UDL(343)
SYM_UDL(344) SYM_UDL(345) SYM_UDL(346) SYM_UDL(347) SYM_UDL(348) SYM_UDL(349) SYM_UDL(350) SYM_UDL(351)
SYM_UDL(352) SYM_UDL(353) SYM_UDL(354) SYM_UDL(355) SYM_UDL(356) SYM_UDL(357) SYM_UDL(358) SYM_UDL(359)
SYM_UDL(360) SYM_UDL(361) SYM_UDL(362) SYM_UDL(363) SYM_UDL(364) SYM_UDL(365) SYM_UDL(366) SYM_UDL(367)
SYM_UDL(368) SYM_UDL(369) SYM_UDL(370) SYM_UDL(371) SYM_UDL(372) SYM_UDL(373) SYM_UDL(374) SYM_UDL(375)
SYM_UDL(376) SYM_UDL(377) SYM_UDL(378) SYM_UDL(379) SYM_UDL(380) SYM_UDL(381) SYM_UDL(382) SYM_UDL(383)
SYM_UDL(384) SYM_UDL(385) SYM_UDL(386) SYM_UDL(387) SYM_UDL(388) SYM_UDL(389) SYM_UDL(390) SYM_UDL(391)
SYM_UDL(392) SYM_UDL(393) SYM_UDL(394) SYM_UDL(395) SYM_UDL(396) SYM_UDL(397) SYM_UDL(398) SYM_UDL(399)
SYM_UDL(400) SYM_UDL(401) SYM_UDL(402) SYM_UDL(403) SYM_UDL(404) SYM_UDL(405) SYM_UDL(406) SYM_UDL(407)
SYM_UDL(408) SYM_UDL(409) SYM_UDL(410) SYM_UDL(411) SYM_UDL(412) SYM_UDL(413) SYM_UDL(414) SYM_UDL(415)
SYM_UDL(416) SYM_UDL(417) SYM_UDL(418) SYM_UDL(419) SYM_UDL(420) SYM_UDL(421) SYM_UDL(422) SYM_UDL(423)
SYM_UDL(424) SYM_UDL(425) SYM_UDL(426) SYM_UDL(427) SYM_UDL(428) SYM_UDL(429) SYM_UDL(430) SYM_UDL(431)
SYM_UDL(432) SYM_UDL(433) SYM_UDL(434) SYM_UDL(435) SYM_UDL(436) SYM_UDL(437) SYM_UDL(438) SYM_UDL(439)
SYM_UDL(440) SYM_UDL(441) SYM_UDL(442) SYM_UDL(443) SYM_UDL(444) SYM_UDL(445) SYM_UDL(446) SYM_UDL(447)
SYM_UDL(448) SYM_UDL(449) SYM_UDL(450) SYM_UDL(451) SYM_UDL(452) SYM_UDL(453) SYM_UDL(454) SYM_UDL(455)
SYM_UDL(456) SYM_UDL(457) SYM_UDL(458) SYM_UDL(459) SYM_UDL(460) SYM_UDL(461) SYM_UDL(462) SYM_UDL(463)
SYM_UDL(464) SYM_UDL(465) SYM_UDL(466) SYM_UDL(467) SYM_UDL(468) SYM_UDL(469) SYM_UDL(470) SYM_UDL(471)
SYM_UDL(472) SYM_UDL(473) SYM_UDL(474) SYM_UDL(475) SYM_UDL(476) SYM_UDL(477) SYM_UDL(478) SYM_UDL(479)
SYM_UDL(480) SYM_UDL(481) SYM_UDL(482) SYM_UDL(483) SYM_UDL(484) SYM_UDL(485) SYM_UDL(486) SYM_UDL(487)
SYM_UDL(488) SYM_UDL(489) SYM_UDL(490) SYM_UDL(491) SYM_UDL(492) SYM_UDL(493) SYM_UDL(494) SYM_UDL(495)
SYM_UDL(496) SYM_UDL(497) SYM_UDL(498) SYM_UDL(499) SYM_UDL(500) SYM_UDL(501) SYM_UDL(502) SYM_UDL(503)
SYM_UDL(504) SYM_UDL(505) SYM_UDL(506) SYM_UDL(507) SYM_UDL(508) SYM_UDL(509) SYM_UDL(510) SYM_UDL(511)
SYM_UDL(512) SYM_UDL(513) SYM_UDL(514) SYM_UDL(515) SYM_UDL(516) SYM_UDL(517) SYM_UDL(518) SYM_UDL(519)
SYM_UDL(520) SYM_UDL(521) SYM_UDL(522) SYM_UDL(523) SYM_UDL(524) SYM_UDL(525) SYM_UDL(526) SYM_UDL(527)
SYM_UDL(528) SYM_UDL(529) SYM_UDL(530) SYM_UDL(531) SYM_UDL(532) SYM_UDL(533) SYM_UDL(534) SYM_UDL(535)
SYM_UDL(536) SYM_UDL(537) SYM_UDL(538) SYM_UDL(539) SYM_UDL(540) SYM_UDL(541) SYM_UDL(542) SYM_UDL(543)
SYM_UDL(544) SYM_UDL(545) SYM_UDL(546) SYM_UDL(547) SYM_UDL(548) SYM_UDL(549) SYM_UDL(550) SYM_UDL(551)
SYM_UDL(552) SYM_UDL(553) SYM_UDL(554) SYM_UDL(555) SYM_UDL(556) SYM_UDL(557) SYM_UDL(558) SYM_UDL(559)
SYM_UDL(560) SYM_UDL(561) SYM_UDL(562) SYM_UDL(563) SYM_UDL(564) SYM_UDL(565) SYM_UDL(566) SYM_UDL(567)
SYM_UDL(568) SYM_UDL(569) SYM_UDL(570) SYM_UDL(571) SYM_UDL(572) SYM_UDL(573) SYM_UDL(574) SYM_UDL(575)
SYM_UDL(576) SYM_UDL(577) SYM_UDL(578) SYM_UDL(579) SYM_UDL(580) SYM_UDL(581) SYM_UDL(582) SYM_UDL(583)
SYM_UDL(584) SYM_UDL(585) SYM_UDL(586) SYM_UDL(587) SYM_UDL(588) SYM_UDL(589) SYM_UDL(590) SYM_UDL(591)
SYM_UDL(592) SYM_UDL(593) SYM_UDL(594) SYM_UDL(595) SYM_UDL(596) SYM_UDL(597) SYM_UDL(598) SYM_UDL(599)
SYM_UDL(600) SYM_UDL(601) SYM_UDL(602) SYM_UDL(603) SYM_UDL(604) SYM_UDL(605) SYM_UDL(606) SYM_UDL(607)
SYM_UDL(608) SYM_UDL(609) SYM_UDL(610) SYM_UDL(611) SYM_UDL(612) SYM_UDL(613) SYM_UDL(614) SYM_UDL(615)
SYM_UDL(616) SYM_UDL(617) SYM_UDL(618) SYM_UDL(619) SYM_UDL(620) SYM_UDL(621) SYM_UDL(622) SYM_UDL(623)
SYM_UDL(624) SYM_UDL(625) SYM_UDL(626) SYM_UDL(627) SYM_UDL(628) SYM_UDL(629) SYM_UDL(630) SYM_UDL(631)
SYM_UDL(632) SYM_UDL(633) SYM_UDL(634) SYM_UDL(635) SYM_UDL(636) SYM_UDL(637) SYM_UDL(638) SYM_UDL(639)
SYM_UDL(640) SYM_UDL(641) SYM_UDL(642) SYM_UDL(643) SYM_UDL(644) SYM_UDL(645) SYM_UDL(646) SYM_UDL(647)
SYM_UDL(648) SYM_UDL(649) SYM_UDL(650) SYM_UDL(651) SYM_UDL(652) SYM_UDL(653) SYM_UDL(654) SYM_UDL(655)
SYM_UDL(656) SYM_UDL(657) SYM_UDL(658) SYM_UDL(659) SYM_UDL(660) SYM_UDL(661) SYM_UDL(662) SYM_UDL(663)
SYM_UDL(664) SYM_UDL(665) SYM_UDL(666) SYM_UDL(667) SYM_UDL(668) SYM_UDL(669) SYM_UDL(670) SYM_UDL(671)
SYM_UDL(672) SYM_UDL(673) SYM_UDL(674) SYM_UDL(675) SYM_UDL(676) SYM_UDL(677) SYM_UDL(678) SYM_UDL(679)
SYM_UDL(680) SYM_UDL(681) SYM_UDL(682) SYM_UDL(683) SYM_UDL(684) SYM_UDL(685) SYM_UDL(686) SYM_UDL(687)
SYM_UDL(688) SYM_UDL(689) SYM_UDL(690) SYM_UDL(691) SYM_UDL(692) SYM_UDL(693) SYM_UDL(694) SYM_UDL(695)
SYM_UDL(696) SYM_UDL(697) SYM_UDL(698) SYM_UDL(699) SYM_UDL(700) SYM_UDL(701) SYM_UDL(702) SYM_UDL(703)
SYM_UDL(704) SYM_UDL(705) SYM_UDL(706) SYM_UDL(707) SYM_UDL(708) SYM_UDL(709) SYM_UDL(710) SYM_UDL(711)
SYM_UDL(712) SYM_UDL(713) SYM_UDL(714) SYM_UDL(715) SYM_UDL(716) SYM_UDL(717) SYM_UDL(718) SYM_UDL(719)
SYM_UDL(720) SYM_UDL(721) SYM_UDL(722) SYM_UDL(723) SYM_UDL(724) SYM_UDL(725) SYM_UDL(726) SYM_UDL(727)
SYM_UDL(728) SYM_UDL(729) SYM_UDL(730) SYM_UDL(731) SYM_UDL(732) SYM_UDL(733) SYM_UDL(734) SYM_UDL(735)
SYM_UDL(736) SYM_UDL(737) SYM_UDL(738) SYM_UDL(739) SYM_UDL(740) SYM_UDL(741) SYM_UDL(742) SYM_UDL(743)
SYM_UDL(744) SYM_UDL(745) SYM_UDL(746) SYM_UDL(747) SYM_UDL(748) SYM_UDL(749) SYM_UDL(750) SYM_UDL(751)
SYM_UDL(752) SYM_UDL(753) SYM_UDL(754) SYM_UDL(755) SYM_UDL(756) SYM_UDL(757) SYM_UDL(758) SYM_UDL(759)
SYM_UDL(760) SYM_UDL(761) SYM_UDL(762) SYM_UDL(763) SYM_UDL(764) SYM_UDL(765) SYM_UDL(766) SYM_UDL(767)
SYM_UDL(768) SYM_UDL(769) SYM_UDL(770) SYM_UDL(771) SYM_UDL(772) SYM_UDL(773) SYM_UDL(774) SYM_UDL(775)
SYM_UDL(776) SYM_UDL(777) SYM_UDL(778) SYM_UDL(779) SYM_UDL(780) SYM_UDL(781) SYM_UDL(782) SYM_UDL(783)
SYM_UDL(784) SYM_UDL(785) SYM_UDL(786) SYM_UDL(787) SYM_UDL(788) SYM_UDL(789) SYM_UDL(790) SYM_UDL(791)
SYM_UDL(792) SYM_UDL(793) SYM_UDL(794) SYM_UDL(795) SYM_UDL(796) SYM_UDL(797) SYM_UDL(798) SYM_UDL(799)
SYM_UDL(800) SYM_UDL(801) SYM_UDL(802) SYM_UDL(803) SYM_UDL(804) SYM_UDL(805) SYM_UDL(806) SYM_UDL(807)
SYM_UDL(808) SYM_UDL(809) SYM_UDL(810) SYM_UDL(811) SYM_UDL(812) SYM_UDL(813) SYM_UDL(814) SYM_UDL(815)
SYM_UDL(816) SYM_UDL(817) SYM_UDL(818) SYM_UDL(819) SYM_UDL(820) SYM_UDL(821) SYM_UDL(822) SYM_UDL(823)
SYM_UDL(824) SYM_UDL(825) SYM_UDL(826) SYM_UDL(827) SYM_UDL(828) SYM_UDL(829) SYM_UDL(830) SYM_UDL(831)
SYM_UDL(832) SYM_UDL(833) SYM_UDL(834) SYM_UDL(835) SYM_UDL(836) SYM_UDL(837) SYM_UDL(838) SYM_UDL(839)
SYM_UDL(840) SYM_UDL(841) SYM_UDL(842) SYM_UDL(843) SYM_UDL(844) SYM_UDL(845) SYM_UDL(846) SYM_UDL(847)
SYM_UDL(848) SYM_UDL(849) SYM_UDL(850) SYM_UDL(851) SYM_UDL(852) SYM_UDL(853) SYM_UDL(854) SYM_UDL(855)
SYM_UDL(856) SYM_UDL(857) SYM_UDL(858) SYM_UDL(859) SYM_UDL(860) SYM_UDL(861) SYM_UDL(862) SYM_UDL(863)
SYM_UDL(864) SYM_UDL(865) SYM_UDL(866) SYM_UDL(867) SYM_UDL(868) SYM_UDL(869) SYM_UDL(870) SYM_UDL(871)
SYM_UDL(872) SYM_UDL(873) SYM_UDL(874) SYM_UDL(875) SYM_UDL(876) SYM_UDL(877) SYM_UDL(878) SYM_UDL(879)
SYM_UDL(880) SYM_UDL(881) SYM_UDL(882) SYM_UDL(883) SYM_UDL(884) SYM_UDL(885) SYM_UDL(886) SYM_UDL(887)
SYM_UDL(888) SYM_UDL(889) SYM_UDL(890) SYM_UDL(891) SYM_UDL(892) SYM_UDL(893) SYM_UDL(894) SYM_UDL(895)
SYM_UDL(896) SYM_UDL(897) SYM_UDL(898) SYM_UDL(899) SYM_UDL(900) SYM_UDL(901) SYM_UDL(902) SYM_UDL(903)
SYM_UDL(904) SYM_UDL(905) SYM_UDL(906) SYM_UDL(907) SYM_UDL(908) SYM_UDL(909) SYM_UDL(910) SYM_UDL(911)
SYM_UDL(912) SYM_UDL(913) SYM_UDL(914) SYM_UDL(915) SYM_UDL(916) SYM_UDL(917) SYM_UDL(918) SYM_UDL(919)
SYM_UDL(920) SYM_UDL(921) SYM_UDL(922) SYM_UDL(923) SYM_UDL(924) SYM_UDL(925) SYM_UDL(926) SYM_UDL(927)
SYM_UDL(928) SYM_UDL(929) SYM_UDL(930) SYM_UDL(931) SYM_UDL(932) SYM_UDL(933) SYM_UDL(934) SYM_UDL(935)
SYM_UDL(936) SYM_UDL(937) SYM_UDL(938) SYM_UDL(939) SYM_UDL(940) SYM_UDL(941) SYM_UDL(942) SYM_UDL(943)
SYM_UDL(944) SYM_UDL(945) SYM_UDL(946) SYM_UDL(947) SYM_UDL(948) SYM_UDL(949) SYM_UDL(950) SYM_UDL(951)
SYM_UDL(952) SYM_UDL(953) SYM_UDL(954) SYM_UDL(955) SYM_UDL(956) SYM_UDL(957) SYM_UDL(958) SYM_UDL(959)
SYM_UDL(960) SYM_UDL(961) SYM_UDL(962) SYM_UDL(963) SYM_UDL(964) SYM_UDL(965) SYM_UDL(966) SYM_UDL(967)
SYM_UDL(968) SYM_UDL(969) SYM_UDL(970) SYM_UDL(971) SYM_UDL(972) SYM_UDL(973) SYM_UDL(974) SYM_UDL(975)
SYM_UDL(976) SYM_UDL(977) SYM_UDL(978) SYM_UDL(979) SYM_UDL(980) SYM_UDL(981) SYM_UDL(982) SYM_UDL(983)
SYM_UDL(984) SYM_UDL(985) SYM_UDL(986) SYM_UDL(987) SYM_UDL(988) SYM_UDL(989) SYM_UDL(990) SYM_UDL(991)
SYM_UDL(992) SYM_UDL(993) SYM_UDL(994) SYM_UDL(995) SYM_UDL(996) SYM_UDL(997) SYM_UDL(998) SYM_UDL(999)
SYM_UDL(1000) SYM_UDL(1001) SYM_UDL(1002) SYM_UDL(1003) SYM_UDL(1004) SYM_UDL(1005) SYM_UDL(1006) SYM_UDL(1007)
SYM_UDL(1008) SYM_UDL(1009) SYM_UDL(1010) SYM_UDL(1011) SYM_UDL(1012) SYM_UDL(1013) SYM_UDL(1014) SYM_UDL(1015)
SYM_UDL(1016) SYM_UDL(1017) SYM_UDL(1018) SYM_UDL(1019) SYM_UDL(1020) SYM_UDL(1021) SYM_UDL(1022) SYM_UDL(1023)
SYM_UDL(1024) SYM_UDL(1025) SYM_UDL(1026) SYM_UDL(1027) SYM_UDL(1028) SYM_UDL(1029) SYM_UDL(1030) SYM_UDL(1031)
SYM_UDL(1032) SYM_UDL(1033) SYM_UDL(1034) SYM_UDL(1035) SYM_UDL(1036) SYM_UDL(1037) SYM_UDL(1038) SYM_UDL(1039)
SYM_UDL(1040) SYM_UDL(1041) SYM_UDL(1042) SYM_UDL(1043) SYM_UDL(1044) SYM_UDL(1045) SYM_UDL(1046) SYM_UDL(1047)
SYM_UDL(1048) SYM_UDL(1049) SYM_UDL(1050) SYM_UDL(1051) SYM_UDL(1052) SYM_UDL(1053) SYM_UDL(1054) SYM_UDL(1055)
SYM_UDL(1056) SYM_UDL(1057) SYM_UDL(1058) SYM_UDL(1059) SYM_UDL(1060) SYM_UDL(1061) SYM_UDL(1062) SYM_UDL(1063)
SYM_UDL(1064) SYM_UDL(1065) SYM_UDL(1066) SYM_UDL(1067) SYM_UDL(1068) SYM_UDL(1069) SYM_UDL(1070) SYM_UDL(1071)
SYM_UDL(1072) SYM_UDL(1073) SYM_UDL(1074) SYM_UDL(1075) SYM_UDL(1076) SYM_UDL(1077) SYM_UDL(1078) SYM_UDL(1079)
SYM_UDL(1080) SYM_UDL(1081) SYM_UDL(1082) SYM_UDL(1083) SYM_UDL(1084) SYM_UDL(1085) SYM_UDL(1086) SYM_UDL(1087)
SYM_UDL(1088) SYM_UDL(1089) SYM_UDL(1090) SYM_UDL(1091) SYM_UDL(1092) SYM_UDL(1093) SYM_UDL(1094) SYM_UDL(1095)
SYM_UDL(1096) SYM_UDL(1097) SYM_UDL(1098) SYM_UDL(1099) SYM_UDL(1490) SYM_UDL(1536) SYM_UDL(2048) SYM_UDL(2790)
SYM_UDL(3072) SYM_UDL(4096) SYM_UDL(4269) SYM_UDL(4314) SYM_UDL(6144) SYM_UDL(8192)
