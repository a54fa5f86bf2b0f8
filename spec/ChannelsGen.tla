---- MODULE ChannelsGen ----
EXTENDS Channels, MachineGen
====
