------------------------------- MODULE IrRemotes ------------------------------
(***************************************************************************)
(* The built in remote controls: protocol, address, codes.                 *)
(***************************************************************************)
EXTENDS IrCommands, TLC

BuiltIn == {"CdPlayer", "SamsungTv", "SpecialForMp3", "SamsungBluRayPlayer", "Apple2009"}
(* Remotes as users define them: a table with entries that hide others,    *)
(* two codes of one action and a code that fits no frame; an address that  *)
(* fits no frame; a large table in no order, with codes that come again;   *)
(* no table at all.                                                        *)
UserMade == {"UserRc6", "UserNec", "UserBig", "UserEmpty"}
Remotes == BuiltIn \cup UserMade

RemoteProto(r) ==
  CASE r = "CdPlayer" -> "rc5" [] r = "SamsungTv" -> "samsung" [] r = "SpecialForMp3" -> "nec"
    [] r = "SamsungBluRayPlayer" -> "sbp" [] r = "Apple2009" -> "apple"
    [] r = "UserRc6" -> "rc6" [] r = "UserNec" -> "nec" [] r = "UserBig" -> "sbp" [] r = "UserEmpty" -> "rc5"
RemoteAddr(r) ==
  CASE r = "CdPlayer" -> 20 [] r = "SamsungTv" -> 7 [] r = "SpecialForMp3" -> 0
    [] r = "SamsungBluRayPlayer" -> 32 [] r = "Apple2009" -> 0
    [] r = "UserRc6" -> 17 [] r = "UserNec" -> 256 [] r = "UserBig" -> 40000 [] r = "UserEmpty" -> 5
DeviceType(r) ==
  CASE r = "CdPlayer" -> "CDPlayer" [] r = "SamsungTv" -> "TV" [] r = "SamsungBluRayPlayer" -> "BluRayPlayer"
    [] OTHER -> "Generic"

(* The names of the actions in text.                                       *)
Names == <<
    <<"Power", "power">>, <<"Source", "source">>, <<"One", "one">>,
    <<"Two", "two">>, <<"Three", "three">>, <<"Four", "four">>,
    <<"Five", "five">>, <<"Six", "six">>, <<"Seven", "seven">>,
    <<"Eight", "eight">>, <<"Nine", "nine">>, <<"Zero", "zero">>,
    <<"Teletext", "teletext">>, <<"ChannelPrev", "channel_prev">>, <<"VolumeUp", "volume_up">>,
    <<"VolumeDown", "volume_down">>, <<"VolumeMute", "volume_mute">>, <<"ChannelList", "channellist">>,
    <<"ChannelListNext", "channellist_next">>, <<"ChannelListPrev", "channellist_prev">>, <<"Tools", "tools">>,
    <<"Info", "info">>, <<"Return", "return">>, <<"Exit", "exit">>,
    <<"Enter", "enter">>, <<"Up", "up">>, <<"Down", "down">>,
    <<"Left", "left">>, <<"Right", "right">>, <<"Red", "red">>,
    <<"Green", "green">>, <<"Yellow", "yellow">>, <<"Blue", "blue">>,
    <<"Emanual", "e_manual">>, <<"PictureSize", "picture_size">>, <<"Subtitle", "subtitle">>,
    <<"Stop", "stop">>, <<"Rewind", "rewind">>, <<"Play", "play">>,
    <<"Paus", "pause">>, <<"Play_Pause", "play_pause">>, <<"Play_Pause2", "play_pause2">>,
    <<"Forward", "forward">>, <<"Mode", "mode">>, <<"Shuffle", "shuffle">>,
    <<"U_SD", "u_sd">>, <<"Plus", "plus">>, <<"Minus", "minus">>,
    <<"Next", "next">>, <<"Prev", "prev">>, <<"Eq", "equalizer">>,
    <<"Mute", "mute">>, <<"Random", "random">>, <<"Repeat", "repeat">>,
    <<"Time", "time">>, <<"Setup", "setup">>, <<"Menu", "menu">>,
    <<"PitchReset", "pitch_reset">>, <<"PitchPlus", "pitch_plus">>, <<"PitchMinus", "pitch_minus">>,
    <<"Prog", "program">>, <<"BatteryLow", "battery_low">> >>
(* An Apple code is 128 * page + command.                                  *)
Page(pg, c) == 128 * pg + c

(* 300 entries with 241 codes, the last 59 entries hidden by earlier ones  *)
Big == [k \in 1..300 |-> <<(37 * k) % 241, Names[1 + ((7 * k) % Len(Names))][1]>>]

Table(r) ==
  CASE r = "CdPlayer" ->
    << <<1, "One">>, <<2, "Two">>, <<3, "Three">>, <<4, "Four">>, <<5, "Five">>, <<6, "Six">>,
       <<7, "Seven">>, <<8, "Eight">>, <<9, "Nine">>, <<11, "Time">>, <<12, "Power">>, <<16, "Up">>,
       <<17, "Down">>, <<18, "Setup">>, <<21, "Left">>, <<22, "Right">>, <<23, "Enter">>,
       <<28, "Random">>, <<29, "Repeat">>, <<32, "Next">>, <<33, "Prev">>, <<37, "PitchReset">>,
       <<38, "PitchPlus">>, <<39, "PitchMinus">>, <<41, "Prog">>, <<48, "Paus">>, <<53, "Play">>,
       <<54, "Stop">> >>
  [] r = "SamsungTv" ->
    << <<2, "Power">>, <<1, "Source">>, <<4, "One">>, <<5, "Two">>, <<6, "Three">>, <<8, "Four">>,
       <<9, "Five">>, <<10, "Six">>, <<12, "Seven">>, <<13, "Eight">>, <<14, "Nine">>, <<17, "Zero">>,
       <<44, "Teletext">>, <<19, "ChannelPrev">>, <<7, "VolumeUp">>, <<11, "VolumeDown">>,
       <<15, "VolumeMute">>, <<107, "ChannelList">>, <<18, "ChannelListNext">>,
       <<16, "ChannelListPrev">>, <<75, "Tools">>, <<31, "Info">>, <<88, "Return">>, <<45, "Exit">>,
       <<104, "Enter">>, <<96, "Up">>, <<97, "Down">>, <<101, "Left">>, <<98, "Right">>,
       <<108, "Red">>, <<20, "Green">>, <<21, "Yellow">>, <<22, "Blue">>, <<63, "Emanual">>,
       <<62, "PictureSize">>, <<37, "Subtitle">>, <<70, "Stop">>, <<69, "Rewind">>, <<71, "Play">>,
       <<74, "Paus">>, <<72, "Forward">> >>
  [] r = "SpecialForMp3" ->
    << <<69, "Power">>, <<70, "Mode">>, <<71, "Mute">>, <<68, "Play_Pause">>, <<64, "Prev">>,
       <<67, "Next">>, <<7, "Eq">>, <<21, "Minus">>, <<9, "Plus">>, <<22, "Zero">>, <<25, "Shuffle">>,
       <<13, "U_SD">>, <<12, "One">>, <<24, "Two">>, <<94, "Three">>, <<8, "Four">>, <<28, "Five">>,
       <<90, "Six">>, <<66, "Seven">>, <<82, "Eight">>, <<74, "Nine">> >>
  [] r = "SamsungBluRayPlayer" ->
    << <<2, "One">>, <<3, "Two">>, <<4, "Three">>, <<5, "Four">>, <<6, "Five">>, <<7, "Six">>,
       <<8, "Seven">>, <<9, "Eight">>, <<10, "Nine">> >>
  [] r = "Apple2009" ->
    << <<Page(14, 1), "Menu">>, <<Page(14, 2), "Play_Pause">>, <<Page(14, 3), "Right">>,
       <<Page(14, 4), "Left">>, <<Page(14, 5), "Up">>, <<Page(14, 6), "Down">>,
       <<Page(14, 46), "Enter">>, <<Page(14, 47), "Play_Pause2">>,
       <<Page(0, 3), "BatteryLow">>, <<Page(0, 7), "BatteryLow">> >>
  [] r = "UserRc6" ->
    << <<1, "One">>, <<1, "Two">>, <<2, "Three">>, <<300, "Four">>, <<3, "One">>, <<4, "Four">>, <<255, "Five">>,
       <<0, "Six">>, <<2, "Three">> >>
  [] r = "UserNec" -> << <<1, "One">>, <<2, "Two">> >>
  [] r = "UserBig" -> Big
  [] r = "UserEmpty" -> <<>>

None == "-"
First(S) == CHOOSE k \in S : \A m \in S : k <= m
(* The action of a command, if it is one of this remote's: the first entry *)
(* of its code.                                                            *)
DecodeR(r, a, c) ==
  LET S == {k \in 1..Len(Table(r)) : Table(r)[k][1] = c} IN
  IF a = RemoteAddr(r) /\ S # {} THEN Table(r)[First(S)][2] ELSE None
(* The code of an action, the first one given for it; Apple commands       *)
(* cannot be made from a code.                                             *)
EncodeR(r, act) ==
  LET S == {k \in 1..Len(Table(r)) : Table(r)[k][2] = act} IN
  IF S # {} /\ CanCreate(RemoteProto(r), RemoteAddr(r), Table(r)[First(S)][1])
  THEN Table(r)[First(S)][1] ELSE -1

(* What a receiver with this remote reports for a command with values v.   *)
ButtonR(r, v) == LET any == AnyOf(RemoteProto(r), v) IN DecodeR(r, any[5], any[6])

ActionName(act) == Names[CHOOSE k \in DOMAIN Names : Names[k][1] = act][2]
NamesDiffer == \A i, j \in DOMAIN Names : i # j => Names[i][1] # Names[j][1] /\ Names[i][2] # Names[j][2]
AllNamed == \A r \in Remotes : \A k \in DOMAIN Table(r) : \E j \in DOMAIN Names : Names[j][1] = Table(r)[k][2]
===============================================================================
