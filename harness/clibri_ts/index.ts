// A stand-in for the npm package "clibri": what generated TypeScript producers and consumers import.
export class Subscription {
    constructor(private readonly _name: string, private readonly _off: () => void) {}
    public getName(): string { return this._name; }
    public destroy(): void { this._off(); }
}
export class Subject<T> {
    private _handlers: Array<(value: T) => any> = [];
    constructor(private readonly _name: string = "Subject") {}
    public getName(): string { return this._name; }
    public subscribe(handler: (value: T) => any): Subscription {
        this._handlers.push(handler);
        return new Subscription(this._name, () => { this._handlers = this._handlers.filter((h) => h !== handler); });
    }
    public emit(value: T): void { this._handlers.slice().forEach((h) => h(value)); }
    public get(): Subject<T> { return this; }
    public destroy(): void { this._handlers = []; }
}
export enum ELogLevel { VERB = 0, DEBUG = 1, INFO = 2, WARN = 3, ERR = 4 }
export abstract class Logger {
    constructor(protected readonly _alias: string = "") {}
    private _out(level: string, args: any[]): string {
        const msg = `[${this._alias}][${level}] ${args.join(" ")}`;
        this.write(level, msg);
        return msg;
    }
    protected abstract write(level: string, msg: string): void;
    public abstract clone(alias: string): Logger;
    public getAlias(): string { return this._alias; }
    public verb(...args: any[]): string { return this._out("verb", args); }
    public debug(...args: any[]): string { return this._out("debug", args); }
    public info(...args: any[]): string { return this._out("info", args); }
    public warn(...args: any[]): string { return this._out("warn", args); }
    public err(...args: any[]): string { return this._out("err", args); }
}
export class DefaultLogger extends Logger {
    protected write(level: string, msg: string): void { }
    public clone(alias: string): Logger { return new DefaultLogger(alias); }
}
export enum ConsumerErrorHandelingStrategy { Log = "Log", EmitError = "EmitError", Disconnect = "Disconnect", EmitErrorAndDisconnect = "EmitErrorAndDisconnect" }
export enum ProducerIdentificationStrategy { Ignore = "Ignore", Log = "Log", EmitError = "EmitError", Disconnect = "Disconnect", EmitErrorAndDisconnect = "EmitErrorAndDisconnect" }
export interface IOptions {
    logger?: Logger;
    consumerErrorHandelingStrategy?: ConsumerErrorHandelingStrategy;
    producerIndentificationStrategy?: ProducerIdentificationStrategy;
}
export class Options {
    public logger: Logger;
    public consumerErrorHandelingStrategy: ConsumerErrorHandelingStrategy;
    public producerIndentificationStrategy: ProducerIdentificationStrategy;
    constructor(o: IOptions) {
        this.logger = o.logger === undefined ? new DefaultLogger("Producer") : o.logger;
        this.consumerErrorHandelingStrategy = o.consumerErrorHandelingStrategy === undefined ? ConsumerErrorHandelingStrategy.EmitError : o.consumerErrorHandelingStrategy;
        this.producerIndentificationStrategy = o.producerIndentificationStrategy === undefined ? ProducerIdentificationStrategy.Log : o.producerIndentificationStrategy;
    }
}
export interface IServerError { error: Error; uuid?: string; }
export interface IServerReceivedEvent { uuid: string; buffer: ArrayBufferLike; }
export interface IServerEvents {
    ready: Subject<void>;
    shutdown: Subject<void>;
    error: Subject<IServerError>;
    connected: Subject<string>;
    disconnected: Subject<string>;
    received: Subject<IServerReceivedEvent>;
}
export abstract class Server {
    public abstract listen(): Promise<void>;
    public abstract shutdown(): Promise<void>;
    public abstract send(buffer: ArrayBufferLike, uuid?: string): Promise<void>;
    public abstract disconnect(uuid: string): Promise<void>;
    public abstract getEvents(): IServerEvents;
}
export interface IClientEvents {
    connected: Subject<void>;
    disconnected: Subject<void>;
    error: Subject<Error>;
    data: Subject<ArrayBufferLike>;
}
export abstract class Client {
    public abstract send(buffer: ArrayBufferLike | string): Error | undefined;
    public abstract destroy(): Promise<void>;
    public abstract getEvents(): IClientEvents;
}
let counter = 0;
export function guid(): string { counter += 1; return `guid-${counter}`; }
export function globals(): any { return globalThis; }
