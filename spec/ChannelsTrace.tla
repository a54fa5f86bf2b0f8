---- MODULE ChannelsTrace ----
EXTENDS Channels, MachineTrace
====
